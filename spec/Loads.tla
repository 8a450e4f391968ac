------------------------------- MODULE Loads --------------------------------
(***************************************************************************)
(* Force generators.  A generator is a record [kind, p, b] with b the names*)
(* of the bodies it refers to.  K maps every body name to its motion       *)
(* record, A every body of the system to its last computed acceleration    *)
(* <<ax, ay, at>>; `In' is the *)
(* set of bodies that belong to the system; mass maps to <<m, I>>.         *)
(*                                                                         *)
(* Load(g, ...) is the function from body names to <<fx, fy, t>> that the  *)
(* generator adds at one evaluation.                                       *)
(***************************************************************************)
EXTENDS Frames, TLC, FiniteSets

GenKinds == {"gravity", "static", "spring", "motor"}
NoLoad == <<RZero, RZero, RZero>>
LAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2]), RAdd(a[3], b[3])>>
ForceAt(k, u, f) == <<f[1], f[2], Moment(k, u, f)>>

CoincidenceLength == RParse("0.01")

(* A body outside the system is fixed ground: it has a place but no speed. *)
SpringEnd(K, In, b, u) ==
    [at |-> LocalToWorld(K[b], u),
     vel |-> IF b \in In THEN PointVelocity(K[b], u) ELSE VZero]

SpringForce(g, K, In) ==      \* the force on the first attachment point
    LET e1 == SpringEnd(K, In, g.b[1], <<g.p.x1, g.p.y1>>)
        e2 == SpringEnd(K, In, g.b[2], <<g.p.x2, g.p.y2>>)
        d == VSub(e2.at, e1.at)
        l == VNorm(d)
        dir == IF RLe(CoincidenceLength, l) THEN <<RDiv(d[1], l), RDiv(d[2], l)>> ELSE VZero
    IN VAdd(VScale(RMul(g.p.ks, RSub(l, g.p.rest)), dir),
            VScale(g.p.kd, VSub(e2.vel, e1.vel)))

SpringEnergy(g, K) ==
    LET d == VSub(LocalToWorld(K[g.b[2]], <<g.p.x2, g.p.y2>>), LocalToWorld(K[g.b[1]], <<g.p.x1, g.p.y1>>))
        e == RSub(VNorm(d), g.p.rest)
    IN RMul(RHalf, RMul(g.p.ks, RSq(e)))

MotorTorque(g, K, A, In) ==   \* the torque on the second body
    LET w(s) == IF g.b[s] \in In THEN K[g.b[s]].om ELSE RZero
        al(s) == IF g.b[s] \in In THEN A[g.b[s]][3] ELSE RZero
        drive == RMul(g.p.ks, RSub(g.p.speed, RSub(w(2), w(1))))
        damp == RMul(g.p.kd, RSub(al(2), al(1)))
    IN RClamp(RSub(drive, damp), RNeg(g.p.max), g.p.max)

GenLoad(g, K, A, mass, In, b) ==
    CASE g.kind = "gravity" -> <<RZero, RNeg(RMul(mass[b][1], g.p.g)), RZero>>
      [] g.kind = "static" ->
           IF g.b[1] = b THEN ForceAt(K[b], <<g.p.px, g.p.py>>, <<g.p.fx, g.p.fy>>) ELSE NoLoad
      [] g.kind = "spring" ->
           IF b \notin {g.b[1], g.b[2]} THEN NoLoad
           ELSE LET f == SpringForce(g, K, In)
                    one == IF g.b[1] = b THEN ForceAt(K[b], <<g.p.x1, g.p.y1>>, f) ELSE NoLoad
                    two == IF g.b[2] = b THEN ForceAt(K[b], <<g.p.x2, g.p.y2>>, VNeg(f)) ELSE NoLoad
                IN LAdd(one, two)
      [] g.kind = "motor" ->
           IF b \notin {g.b[1], g.b[2]} THEN NoLoad
           ELSE LET t == MotorTorque(g, K, A, In)
                IN <<RZero, RZero, RSub(IF g.b[2] = b THEN t ELSE RZero, IF g.b[1] = b THEN t ELSE RZero)>>

(* Magnitude of the terms a load is added up from: rounding is relative to *)
(* it.  A spring's direction is only as good as the positions it is        *)
(* computed from, relative to its length.                                  *)
L1(u) == RAdd(RAbs(u[1]), RAbs(u[2]))
RateSize(k, u) == RAdd(L1(<<k.vx, k.vy>>), RMul(RAbs(k.om), L1(u)))
SpringSize(g, K) ==
    LET u1 == <<g.p.x1, g.p.y1>>
        u2 == <<g.p.x2, g.p.y2>>
        k1 == K[g.b[1]]
        k2 == K[g.b[2]]
        span == RAdd(RAdd(L1(Centre(k1)), L1(u1)), RAdd(L1(Centre(k2)), L1(u2)))
        l == VNorm(VSub(LocalToWorld(k2, u2), LocalToWorld(k1, u1)))
        pull == RMul(RAbs(g.p.ks), RAdd(span, RAbs(g.p.rest)))
    IN RAdd(RAdd(pull, RDiv(RMul(RParse("1e-5"), RMul(pull, span)), RMax(l, CoincidenceLength))),
            RMul(RAbs(g.p.kd), RAdd(RateSize(k1, u1), RateSize(k2, u2))))
MotorSize(g, K, A) ==
    RAdd(RMul(RAbs(g.p.ks), RAdd(RAbs(g.p.speed), RAdd(RAbs(K[g.b[1]].om), RAbs(K[g.b[2]].om)))),
         RMul(RAbs(g.p.kd), RSumF([b \in {g.b[1], g.b[2]} \cap DOMAIN A |-> RAbs(A[b][3])])))
GenSize(g, K, A, mass, b) ==
    CASE g.kind = "gravity" -> LET w == RAbs(RMul(mass[b][1], g.p.g)) IN <<w, w, RZero>>
      [] g.kind = "static" ->
           IF g.b[1] # b THEN NoLoad
           ELSE LET f == L1(<<g.p.fx, g.p.fy>>)
                IN <<f, f, RMul(f, RAdd(L1(Centre(K[b])), L1(<<g.p.px, g.p.py>>)))>>
      [] g.kind = "spring" ->
           IF b \notin {g.b[1], g.b[2]} THEN NoLoad
           ELSE LET f == SpringSize(g, K)
                IN <<f, f, RMul(f, RAdd(L1(Centre(K[b])), RAdd(L1(<<g.p.x1, g.p.y1>>), L1(<<g.p.x2, g.p.y2>>))))>>
      [] g.kind = "motor" ->
           IF b \notin {g.b[1], g.b[2]} THEN NoLoad ELSE <<RZero, RZero, MotorSize(g, K, A)>>

(* Total load on b from the generators in the sequence gs, from zero.      *)
RECURSIVE SumLoad(_, _, _, _, _, _)
SumLoad(gs, K, A, mass, In, b) ==
    IF gs = <<>> THEN NoLoad
    ELSE LAdd(GenLoad(Head(gs), K, A, mass, In, b), SumLoad(Tail(gs), K, A, mass, In, b))

RECURSIVE SumSize(_, _, _, _, _)
SumSize(gs, K, A, mass, b) ==
    IF gs = <<>> THEN NoLoad
    ELSE LAdd(GenSize(Head(gs), K, A, mass, b), SumSize(Tail(gs), K, A, mass, b))
LoadSizes(gs, K, A, mass, In) == TLCEval([b \in In |-> TLCEval(SumSize(gs, K, A, mass, b))])

Loads(gs, K, A, mass, In) == TLCEval([b \in In |-> TLCEval(SumLoad(gs, K, A, mass, In, b))])
=============================================================================
