------------------------------ MODULE Dynamics ------------------------------
(***************************************************************************)
(* What one evaluation, or one sub-step, of a system relates to each other.*)
(*                                                                         *)
(*   In     the bodies that belong to the system                           *)
(*   js     the joints that belong to it: name -> [kind, b, p]             *)
(*   K      motion records of all bodies, at the start of the sub-step     *)
(*   M      mass records <<m, I>>                                          *)
(*   f      applied load on each body of In: <<fx, fy, t>>                 *)
(*   R      reactions: R[j][i][s] is the <<fx, fy, t>> that row i of joint *)
(*          j exerts on the s-th body of the joint                         *)
(*                                                                         *)
(* The relations are stated on reactions, not on an algorithm: whichever   *)
(* solver found them, they have to satisfy them.                           *)
(***************************************************************************)
EXTENDS Joints, Loads

Tiny == RParse("1e-9")

RowsOf(js, K) ==
    TLCEval([j \in DOMAIN js |-> Rows(js[j].kind, js[j].p, TLCEval([s \in 1..Len(js[j].b) |-> K[js[j].b[s]]]))])

\* the joint ends that each body of the system carries
Attached(js, In) ==
    LET ends == UNION {{<<j, s>> : s \in 1..Len(js[j].b)} : j \in DOMAIN js}
    IN TLCEval([b \in In |-> {e \in ends : js[e[1]].b[e[2]] = b}])

RowIds(rows) == UNION {{<<j, i>> : i \in 1..Len(rows[j])} : j \in DOMAIN rows}
Ends(js, In, j) == {s \in 1..Len(js[j].b) : js[j].b[s] \in In}

J3(row, s) == <<row.J[3 * s - 2], row.J[3 * s - 1], row.J[3 * s]>>
Jd3(row, s) == <<row.Jd[3 * s - 2], row.Jd[3 * s - 1], row.Jd[3 * s]>>
Speed3(k) == <<k.vx, k.vy, k.om>>
InvMass(m) == LET u == RDiv(ROne, m[1]) IN <<u, u, RDiv(ROne, m[2])>>
Abs3(u) == <<RAbs(u[1]), RAbs(u[2]), RAbs(u[3])>>
Scale3(r, u) == <<RMul(r, u[1]), RMul(r, u[2]), RMul(r, u[3])>>
Mul3(u, v) == <<RMul(u[1], v[1]), RMul(u[2], v[2]), RMul(u[3], v[3])>>
Near3(u, v, scale, tol) == \A c \in 1..3 : RNear(u[c], v[c], scale[c], tol)

Zero3 == <<RZero, RZero, RZero>>
RECURSIVE Sum3(_, _)
Sum3(f, S) == IF S = {} THEN Zero3 ELSE LET x == CHOOSE x \in S : TRUE IN LAdd(f[x], Sum3(f, S \ {x}))

(* The multiplier of a row, read off the reactions on its bodies.          *)
Multiplier(row, ends, r) ==
    LET sq == RSumF([s \in ends |-> RDot(J3(row, s), J3(row, s))])
    IN IF RIsZero(sq) THEN RZero ELSE RDiv(RSumF([s \in ends |-> RDot(J3(row, s), r[s])]), sq)
Multipliers(js, In, rows, R) ==
    TLCEval([j \in DOMAIN js |->
        LET ends == Ends(js, In, j)
        IN TLCEval([i \in 1..Len(rows[j]) |-> Multiplier(rows[j][i], ends, R[j][i])])])

(* [C09] Every reaction is the row's coefficients times one multiplier; a  *)
(* body outside the system reports no reaction, or what the row exerts on  *)
(* the ground.                                                             *)
ReactionsProportional(js, In, rows, lam, R) ==
    \A id \in RowIds(rows) :
        LET j == id[1]
            i == id[2]
            l == lam[j][i]
        IN \A s \in 1..Len(js[j].b) :
             LET want == Scale3(l, J3(rows[j][i], s))
             IN \/ Near3(R[j][i][s], want, Abs3(want), Tiny)
                \/ js[j].b[s] \notin In /\ R[j][i][s] = Zero3

(* Sum over a body's joint ends and their rows of a 3-vector g(j, i, s).   *)
EndSum(rows, ends, G(_, _, _)) ==
    TLCEval(<<RSumF([e \in ends |-> RSumF([i \in 1..Len(rows[e[1]]) |-> G(e[1], i, e[2])[1]])]),
              RSumF([e \in ends |-> RSumF([i \in 1..Len(rows[e[1]]) |-> G(e[1], i, e[2])[2]])]),
              RSumF([e \in ends |-> RSumF([i \in 1..Len(rows[e[1]]) |-> G(e[1], i, e[2])[3]])])>>)

ReactionOn(rows, ends, R) == LET G(j, i, s) == R[j][i][s] IN EndSum(rows, ends, G)
ReactionSize(rows, ends, R) == LET G(j, i, s) == Abs3(R[j][i][s]) IN EndSum(rows, ends, G)

(* Acceleration that applied loads and reactions account for.              *)
Acceleration(rows, att, M, f, R) ==
    TLCEval([b \in DOMAIN att |-> Mul3(InvMass(M[b]), LAdd(f[b], ReactionOn(rows, att[b], R)))])
AccelerationSize(rows, att, M, f, R) ==
    TLCEval([b \in DOMAIN att |-> Mul3(InvMass(M[b]), LAdd(Abs3(f[b]), ReactionSize(rows, att[b], R)))])

\* row coefficients times a 3-vector per body, over the bodies in the system
RowApply(js, In, row, j, V) == RSumF([s \in Ends(js, In, j) |-> RDot(J3(row, s), V[js[j].b[s]])])
RowApplyDot(js, In, row, j, V) == RSumF([s \in Ends(js, In, j) |-> RDot(Jd3(row, s), V[js[j].b[s]])])
RowApplySize(js, In, row, j, V) == RSumF([s \in Ends(js, In, j) |-> RAbsDot(J3(row, s), V[js[j].b[s]])])
RowApplyDotSize(js, In, row, j, V) == RSumF([s \in Ends(js, In, j) |-> RAbsDot(Jd3(row, s), V[js[j].b[s]])])

-----------------------------------------------------------------------------
(* Accuracy a linear solver is configured for.  For a row with coefficients*)
(* A[i] of the (symmetric) system, right-hand side b and solution x:       *)
(*  - elimination: rounding only;                                          *)
(*  - Gauss-Seidel stops when one sweep changes no unknown by more than    *)
(*    delta relative to max(1e-3, |x|): row i may then still be off by     *)
(*    delta * sum over j of |A[i][j]| max(1e-3, |x[j]| / (1 - delta));      *)
(*  - conjugate gradient stops on residual <= max(maxErr |b|, minErr).      *)
GsFloor == RParse("1e-3")
GsReach(sv, x) == RMax(RDiv(RAbs(x), RSub(ROne, sv.delta)), GsFloor)

SolverSlack(js, In, M, rows, att, sv, lam, rhs, scale) ==
    LET big == RMaxF(TLCEval([j \in DOMAIN rows |-> RMaxF(scale[j])]))
        rounding == RMul(Tiny, RAdd(ROne, big))
        PerRow(G(_, _)) == TLCEval([j \in DOMAIN rows |-> TLCEval([i \in 1..Len(rows[j]) |-> RAdd(rounding, G(j, i))])])
    IN CASE sv.kind = "ge" -> LET G(j, i) == RZero IN PerRow(G)
         [] sv.kind = "cg" ->
              LET G(j, i) == RMul(RParse("1.000001"), RMax(RMul(sv.maxerr, RAbs(rhs[j][i])), sv.minerr)) IN PerRow(G)
         [] sv.kind = "gs" ->
              LET reach == TLCEval([b \in In |->
                      LET G(j, i, s) == Scale3(GsReach(sv, lam[j][i]), Abs3(J3(rows[j][i], s)))
                      IN Mul3(InvMass(M[b]), EndSum(rows, att[b], G))])
                  G(j, i) == RMul(sv.delta, RowApplySize(js, In, rows[j][i], j, reach))
              IN PerRow(G)

-----------------------------------------------------------------------------
(* Impulse-based sub-step of length h with bias factor beta: what remains  *)
(* of each row's target with the new velocities V.                         *)
ImpulseMiss(js, In, rows, V, h, beta) ==
    TLCEval([j \in DOMAIN rows |-> [i \in 1..Len(rows[j]) |->
        LET r == rows[j][i]
        IN RAdd(RowApply(js, In, r, j, V), RAdd(r.vb, RMul(RDiv(beta, h), r.C)))]])

ImpulseScale(js, In, rows, S, h, beta) ==
    TLCEval([j \in DOMAIN rows |-> [i \in 1..Len(rows[j]) |->
        LET r == rows[j][i]
        IN RAdd(RowApplySize(js, In, r, j, S), RAdd(RAbs(r.vb), RAbs(RMul(RDiv(beta, h), r.C))))]])

AtOrBelow(l, lo) == RLe(l, RAdd(lo, RMul(Tiny, RAdd(ROne, RAbs(l)))))
AtOrAbove(l, hi) == RLe(RSub(hi, RMul(Tiny, RAdd(ROne, RAbs(l)))), l)
Limited(r) == RLt(RNeg(NoLimit), r.lo) \/ RLt(r.hi, NoLimit)

\* [C07] rows whose reaction is not at a limit meet their target
RowMet(r, l, miss, slack, limits) ==
    \/ limits /\ (AtOrBelow(l, r.lo) \/ AtOrAbove(l, r.hi))
    \/ RLe(RAbs(miss), slack)
\* [C08] reactions within limits; a row misses only at a limit, and only that way
WithinLimits(r, l) ==
    /\ RLe(RSub(r.lo, RMul(Tiny, RAdd(ROne, RAbs(l)))), l)
    /\ RLe(l, RAdd(r.hi, RMul(Tiny, RAdd(ROne, RAbs(l)))))
SlipsOnlyAtLimit(r, l, miss, slack) ==
    /\ RLe(miss, slack) \/ AtOrBelow(l, r.lo)
    /\ RLe(RNeg(slack), miss) \/ AtOrAbove(l, r.hi)

(* Force-based evaluation: what remains of the acceleration each row asks. *)
AccelMiss(js, In, rows, A, V) ==
    TLCEval([j \in DOMAIN rows |-> [i \in 1..Len(rows[j]) |->
        LET r == rows[j][i]
        IN RAdd(RAdd(RowApply(js, In, r, j, A), RowApplyDot(js, In, r, j, V)),
                RAdd(RMul(r.ks, r.C), RMul(r.kd, RowApply(js, In, r, j, V))))]])
AccelScale(js, In, rows, SA, V) ==
    TLCEval([j \in DOMAIN rows |-> [i \in 1..Len(rows[j]) |->
        LET r == rows[j][i]
        IN RAdd(RAdd(RowApplySize(js, In, r, j, SA), RowApplyDotSize(js, In, r, j, V)),
                RAdd(RAbs(RMul(r.ks, r.C)), RAbs(RMul(r.kd, RowApplySize(js, In, r, j, V)))))]])

-----------------------------------------------------------------------------
(* Global quantities. *)
Momentum(K, M, In) ==
    <<RSumF([b \in In |-> RMul(M[b][1], K[b].vx)]), RSumF([b \in In |-> RMul(M[b][1], K[b].vy)])>>
MomentumSize(K, M, In) ==
    RAdd(RSumF([b \in In |-> RAbs(RMul(M[b][1], K[b].vx))]), RSumF([b \in In |-> RAbs(RMul(M[b][1], K[b].vy))]))
AngularMomentum(K, M, In) ==
    RSumF([b \in In |->
        RAdd(RMul(M[b][1], VCross(<<K[b].x, K[b].y>>, <<K[b].vx, K[b].vy>>)), RMul(M[b][2], K[b].om))])
AngularSize(K, M, In) ==
    RSumF([b \in In |->
        RAdd(RMul(M[b][1], RAdd(RAbs(RMul(K[b].x, K[b].vy)), RAbs(RMul(K[b].y, K[b].vx)))), RAbs(RMul(M[b][2], K[b].om)))])
Kinetic(K, M, In) == RSumF([b \in In |-> KineticEnergy(K[b], M[b][1], M[b][2])])

InternalJoint(j, In) == j.kind \in {"link", "clutch"} /\ \A s \in 1..Len(j.b) : j.b[s] \in In
InternalGen(g, In) == (g.kind = "motor" \/ (g.kind = "spring" /\ RIsZero(g.p.kd))) /\ \A s \in 1..Len(g.b) : g.b[s] \in In
=============================================================================
