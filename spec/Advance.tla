------------------------------ MODULE Advance -------------------------------
(***************************************************************************)
(* One call that advances a system, as an observable transition: given the *)
(* members, their parameters and their motion before the call, which       *)
(* recorded evaluations, final motion, published reactions and elapsed     *)
(* time are allowed.                                                       *)
(*                                                                         *)
(* A scene is the record                                                   *)
(*   [In, js, gs, M, names, bodies, sv, method, beta, dt, n, K0]           *)
(* In      bodies of the system         js  joints of the system           *)
(* gs      its generators (a sequence)  M   masses <<m, I>> of In          *)
(* order   its joints in the order in which their rows are numbered        *)
(* at      its bodies in the order in which they are numbered              *)
(* sv      linear solver                method  integrator                 *)
(* beta    bias factor                  dt, n   step and sub-steps         *)
(* K0      motion records of all bodies, in the system or not              *)
(***************************************************************************)
EXTENDS Clauses, Dynamics, Integrators, Sequences, Integers

-----------------------------------------------------------------------------
(* Reading a recorded snapshot of the system's state. *)
Motion(px, py, th, vx, vy, om) ==
    [x |-> RRead(px), y |-> RRead(py), th |-> RRead(th), vx |-> RRead(vx), vy |-> RRead(vy), om |-> RRead(om)]

RECURSIVE Position(_, _, _)
Position(s, x, i) == IF s[i] = x THEN i ELSE Position(s, x, i + 1)
PlaceOf(sc) == TLCEval([b \in sc.In |-> Position(sc.at, b, 1)])

SnapMotion(sc, s) ==
    TLCEval([b \in DOMAIN sc.K0 |->
        IF b \in sc.In
        THEN LET i == sc.place[b] IN Motion(s.px[i], s.py[i], s.th[i], s.vx[i], s.vy[i], s.om[i])
        ELSE sc.K0[b]])
SnapLoads(sc, s) ==
    TLCEval([b \in sc.In |-> LET i == sc.place[b] IN <<RRead(s.fx[i]), RRead(s.fy[i]), RRead(s.ft[i])>>])
SnapAcc(sc, s) ==
    TLCEval([b \in sc.In |-> LET i == sc.place[b] IN <<RRead(s.ax[i]), RRead(s.ay[i]), RRead(s.at[i])>>])

RECURSIVE SumInt(_, _)
SumInt(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumInt(f, n - 1)
RowTotal(sc) == SumInt([i \in 1..Len(sc.order) |-> RowCount(sc.js[sc.order[i]].kind)], Len(sc.order))
SnapReactions(sc, s) ==
    TLCEval([j \in DOMAIN sc.js |->
        TLCEval([i \in 1..RowCount(sc.js[j].kind) |->
            TLCEval([e \in 1..Len(sc.js[j].b) |->
                LET k == 2 * (sc.first[j] + i - 1) + e
                IN <<RRead(s.rx[k]), RRead(s.ry[k]), RRead(s.rt[k])>>])])])
ReadF(sc, F) ==
    TLCEval([j \in DOMAIN sc.js |->
        TLCEval([i \in 1..RowCount(sc.js[j].kind) |->
            TLCEval([e \in 1..Len(sc.js[j].b) |-> RReadSeq(F[j][i][e])])])])

-----------------------------------------------------------------------------
Comp == {"x", "y", "th", "vx", "vy", "om"}
\* two motion records agree, relative to a motion record of magnitudes
MotionNear(k, want, size, tol) == \A c \in Comp : RNear(k[c], want[c], size[c], tol)
SameReactions(js, R1, R2, tol) ==
    \A j \in DOMAIN js : \A i \in 1..RowCount(js[j].kind) : \A e \in 1..Len(js[j].b) : \A c \in 1..3 :
        RNear(R1[j][i][e][c], R2[j][i][e][c], RAbs(R2[j][i][e][c]), tol)

OncePerMember(seq, members) ==
    /\ Len(seq) = Cardinality(members)
    /\ {seq[i] : i \in 1..Len(seq)} = members

(* Loads applied in an evaluation: each generator once, and the loads it   *)
(* prescribes for this evaluation's motion and the last accelerations.     *)
LoadsAgree(sc, K, A, f) ==
    LET want == Loads(sc.gs, K, A, sc.M, sc.In)
        size == LoadSizes(sc.gs, K, A, sc.M, sc.In)
    IN \A b \in sc.In : Near3(f[b], want[b], size[b], Tiny)

(* Recorded rows against the rows of the specification. *)
Geometry(kind, p) ==        \* magnitude of the parameters that enter C and J
    CASE kind = "pin" -> RSum(<<RAbs(p.lx), RAbs(p.ly), RAbs(p.wx), RAbs(p.wy)>>)
      [] kind = "rot" -> RAbs(p.th)
      [] kind = "line" -> RMul(RAdd(ROne, RAdd(RAbs(p.dx), RAbs(p.dy))),
                               RSum(<<RAbs(p.lx), RAbs(p.ly), RAbs(p.x0), RAbs(p.y0), ROne>>))
      [] kind = "link" -> RSum(<<RAbs(p.x1), RAbs(p.y1), RAbs(p.x2), RAbs(p.y2)>>)
      [] kind = "roll" -> RMul(RAdd(ROne, RAdd(RAbs(p.dx), RAbs(p.dy))),
                               RSum(<<RAbs(p.lx), RAbs(p.ly), RAbs(p.r), ROne>>))
      [] kind = "gear" -> RAbs(p.ratio)
      [] OTHER -> RZero
Spread(ks) == RSum(TLCEval([s \in 1..Len(ks) |-> RSum(<<RAbs(ks[s].x), RAbs(ks[s].y), RAbs(ks[s].th)>>)]))
Pace(ks) == RSum(TLCEval([s \in 1..Len(ks) |-> RSum(<<RAbs(ks[s].vx), RAbs(ks[s].vy), RAbs(ks[s].om)>>)]))

RowClauses(j, ks, rep) ==
    LET want == Ideal(j.kind, j.p, ks)
        geo == RMul(RAdd(ROne, Geometry(j.kind, j.p)), RAdd(ROne, Spread(ks)))
        fast == RMul(geo, RAdd(ROne, Pace(ks)))
        nq == 3 * Len(j.b)
        Agree(x, y, s) == RNear(RRead(x), y, s, RParse("1e-12"))
        Same(x, y) == RAllFinite(x) /\ RNearS(RRead(x), y, RParse("1e-15"))
        Limit(x, y) == x # "nan" /\ RNearS(RRead(x), y, RParse("1e-15"))
    IN Fail({"C05"}, "error", \A i \in 1..Len(want) : RAllFinite(rep[i].C) /\ Agree(rep[i].C, want[i].C, geo))
       \cup Fail({"C05"}, "bias", \A i \in 1..Len(want) : Same(rep[i].vb, want[i].vb))
       \cup Fail({"C05"}, "limits", \A i \in 1..Len(want) : Limit(rep[i].lo, want[i].lo) /\ Limit(rep[i].hi, want[i].hi))
       \cup Fail({"C05"}, "stiffness and damping",
                 \A i \in 1..Len(want) : Same(rep[i].ks, want[i].ks) /\ Same(rep[i].kd, want[i].kd))
       \cup Fail({"C06"}, "coefficients",
                 \A i \in 1..Len(want) : \A c \in 1..nq :
                    RAllFinite(rep[i].J[c]) /\ Agree(rep[i].J[c], want[i].J[c], geo))
       \cup Fail({"C06"}, "coefficient rates",
                 \A i \in 1..Len(want) : \A c \in 1..nq :
                    RAllFinite(rep[i].Jd[c]) /\ Agree(rep[i].Jd[c], want[i].Jd[c], fast))

-----------------------------------------------------------------------------
(* Clauses that both kinds of system share, for evaluation number i. *)
EvalClauses(sc, ev, K, A, f) ==
    Fail({"C01", "C17"}, "every generator is applied once", OncePerMember(ev.g, sc.gens))
    \cup Fail({"C01", "C17"}, "every joint is evaluated once", OncePerMember(ev.j, DOMAIN sc.js))
    \cup Fail({"C04", "C16", "C17"}, "loads", LoadsAgree(sc, K, A, f))
    \cup (IF "rows" \in DOMAIN ev /\ Want({"C05", "C06"})
          THEN UNION {RowClauses(sc.js[j], TLCEval([s \in 1..Len(sc.js[j].b) |-> K[sc.js[j].b[s]]]), ev.rows[j])
                      : j \in DOMAIN sc.js}
          ELSE {})

(* Impulse-based sub-step from motion K to motion Kn with loads f and      *)
(* reactions R.                                                            *)
SpeedOf(K) == TLCEval([b \in DOMAIN K |-> Speed3(K[b])])

NsvClauses(sc, h, K, Kn, f, R) ==
    LET rows == RowsOf(sc.js, K)
        att == Attached(sc.js, sc.In)
        lam == Multipliers(sc.js, sc.In, rows, R)
        acc == Acceleration(rows, att, sc.M, f, R)
        size == AccelerationSize(rows, att, sc.M, f, R)
        V == TLCEval([b \in sc.In |-> Speed3(Kn[b])])
        V1 == TLCEval([b \in sc.In |-> LAdd(Speed3(K[b]), Scale3(h, Mul3(InvMass(sc.M[b]), f[b])))])
        S == TLCEval([b \in sc.In |-> LAdd(Abs3(Speed3(K[b])), Scale3(h, size[b]))])
        miss == ImpulseMiss(sc.js, sc.In, rows, V, h, sc.beta)
        demand == ImpulseMiss(sc.js, sc.In, rows, V1, h, sc.beta)
        scale == ImpulseScale(sc.js, sc.In, rows, S, h, sc.beta)
        impulse == TLCEval([j \in DOMAIN lam |-> [i \in 1..Len(lam[j]) |-> RMul(h, lam[j][i])]])
        slack == SolverSlack(sc.js, sc.In, sc.M, rows, att, sc.sv, impulse, demand, scale)
        limits == sc.sv.kind = "gs"
        ids == RowIds(rows)
        internal == /\ \A j \in DOMAIN sc.js : InternalJoint(sc.js[j], sc.In)
                    /\ \A g \in 1..Len(sc.gs) : InternalGen(sc.gs[g], sc.In)
        msize == RSumF(TLCEval([b \in sc.In |-> RMul(sc.M[b][1], RAdd(S[b][1], S[b][2]))]))
        \* moment of a pair of opposite forces at points that do not coincide
        pair == RSumF(TLCEval([j \in DOMAIN sc.js |->
                    IF sc.js[j].kind # "link" THEN RZero
                    ELSE VCross(<<rows[j][1].C, rows[j][2].C>>,
                                <<RAdd(R[j][1][1][1], R[j][2][1][1]), RAdd(R[j][1][1][2], R[j][2][1][2])>>)]))
        lever == RMaxF(TLCEval([b \in sc.In |-> RAdd(ROne, RAdd(RAbs(K[b].x), RAbs(K[b].y)))]))
        asize == RAdd(RMul(msize, lever), RSumF(TLCEval([b \in sc.In |-> RMul(sc.M[b][2], S[b][3])])))
        esize == RSumF(TLCEval([b \in sc.In |->
                    RAdd(RMul(sc.M[b][1], RSq(RAdd(S[b][1], S[b][2]))), RMul(sc.M[b][2], RSq(S[b][3])))]))
        passive == /\ sc.gs = <<>> /\ RIsZero(sc.beta)
                   /\ \A id \in ids : LET r == rows[id[1]][id[2]]
                                      IN RIsZero(r.vb) /\ RLe(r.lo, RZero) /\ RLe(RZero, r.hi)
    IN Fail({"C09", "C17"}, "velocities change by loads and reactions alone",
            \A b \in sc.In : Near3(V[b], LAdd(Speed3(K[b]), Scale3(h, acc[b])), S[b], Tiny))
       \cup Fail({"C09", "C17"}, "reactions are coefficients times one multiplier",
            ReactionsProportional(sc.js, sc.In, rows, lam, R))
       \cup Fail({"C11", "C16", "C17"}, "positions move with the new velocities",
            \A b \in sc.In :
              LET want == [Kn[b] EXCEPT !.x = RAdd(K[b].x, RMul(h, Kn[b].vx)), !.y = RAdd(K[b].y, RMul(h, Kn[b].vy)),
                                        !.th = RAdd(K[b].th, RMul(h, Kn[b].om))]
                  big == [c \in Comp |-> RAdd(RAbs(K[b][c]), RAbs(want[c]))]
              IN MotionNear(Kn[b], want, big, Tiny))
       \cup Fail({"C07", "C17"}, "rows reach their target",
            \A id \in ids : RowMet(rows[id[1]][id[2]], lam[id[1]][id[2]], miss[id[1]][id[2]], slack[id[1]][id[2]], limits))
       \cup Fail({"C08"}, "reactions within limits",
            limits => \A id \in ids : WithinLimits(rows[id[1]][id[2]], lam[id[1]][id[2]]))
       \cup Fail({"C08"}, "a row slips only at a limit",
            limits => \A id \in ids :
                SlipsOnlyAtLimit(rows[id[1]][id[2]], lam[id[1]][id[2]], miss[id[1]][id[2]], slack[id[1]][id[2]]))
       \cup Fail({"C15"}, "linear momentum",
            internal => /\ RNear(Momentum(Kn, sc.M, sc.In)[1], Momentum(K, sc.M, sc.In)[1], msize, Tiny)
                        /\ RNear(Momentum(Kn, sc.M, sc.In)[2], Momentum(K, sc.M, sc.In)[2], msize, Tiny))
       \cup Fail({"C15"}, "angular momentum",
            internal => RNear(AngularMomentum(Kn, sc.M, sc.In),
                              RAdd(AngularMomentum(K, sc.M, sc.In), RMul(h, pair)), asize, Tiny))
       \cup Fail({"C15"}, "kinetic energy",
            passive => RLe(Kinetic(Kn, sc.M, sc.In),
                           RAdd(Kinetic(K, sc.M, sc.In),
                                RAdd(RMul(Tiny, RAdd(ROne, esize)),
                                     RSumF(TLCEval([id \in ids |->
                                        RAbs(RMul(impulse[id[1]][id[2]], slack[id[1]][id[2]]))]))))))

(* Force-based evaluation: motion K, loads f, accelerations A, reactions R.*)
GenericClauses(sc, K, A, f, R) ==
    LET rows == RowsOf(sc.js, K)
        att == Attached(sc.js, sc.In)
        lam == Multipliers(sc.js, sc.In, rows, R)
        acc == Acceleration(rows, att, sc.M, f, R)
        size == AccelerationSize(rows, att, sc.M, f, R)
        V == SpeedOf(K)
        A0 == TLCEval([b \in sc.In |-> Mul3(InvMass(sc.M[b]), f[b])])
        miss == AccelMiss(sc.js, sc.In, rows, A, V)
        demand == AccelMiss(sc.js, sc.In, rows, A0, V)
        scale == AccelScale(sc.js, sc.In, rows, size, V)
        slack == SolverSlack(sc.js, sc.In, sc.M, rows, att, sc.sv, lam, demand, scale)
    IN Fail({"C09", "C17"}, "accelerations are loads and reactions over mass",
            \A b \in sc.In : Near3(A[b], acc[b], size[b], Tiny))
       \cup Fail({"C09", "C17"}, "reactions are coefficients times one multiplier",
            ReactionsProportional(sc.js, sc.In, rows, lam, R))
       \cup Fail({"C10", "C17"}, "rows get the acceleration they ask for",
            \A id \in RowIds(rows) : RLe(RAbs(miss[id[1]][id[2]]), slack[id[1]][id[2]]))

(* States an integrator asks for: es is the sequence of evaluations of one *)
(* sub-step, each a record [K, A]; K1 the motion after it.                  *)
MethodClauses(sc, h, es, K1) ==
    LET big(b) == [c \in Comp |->
            RAdd(RAbs(es[1].K[b][c]),
                 RMul(RAbs(h), RSum(TLCEval([q \in 1..Len(es) |->
                    CASE c = "x" -> RAbs(es[q].K[b].vx) [] c = "y" -> RAbs(es[q].K[b].vy) [] c = "th" -> RAbs(es[q].K[b].om)
                      [] c = "vx" -> RAbs(es[q].A[b][1]) [] c = "vy" -> RAbs(es[q].A[b][2]) [] c = "om" -> RAbs(es[q].A[b][3])]))))]
        own(b) == [q \in 1..Len(es) |-> [k |-> es[q].K[b], a |-> es[q].A[b]]]
    IN Fail({"C11", "C16", "C17"}, "stages of the method",
            \A b \in sc.In : \A q \in 2..Len(es) :
                MotionNear(es[q].K[b], Stage(sc.method, q, es[1].K[b], own(b), h), big(b), Tiny))
       \cup Fail({"C11", "C16", "C17"}, "result of the method",
            \A b \in sc.In : MotionNear(K1[b], Final(sc.method, es[1].K[b], own(b), h), big(b), Tiny))

-----------------------------------------------------------------------------
(* The whole call: r is the record made of it. *)
Started(sc, k) ==
    Fail({"C01", "C02", "C16"}, "the call starts from the bodies' motion",
         \A b \in sc.In : MotionNear(k[b], sc.K0[b], [c \in Comp |-> RZero], RParse("1e-15")))
Ended(sc, k, bodies) ==
    Fail({"C01", "C09", "C16", "C17"}, "the bodies end with the computed motion",
         \A b \in sc.In : bodies[b] = k[b])

NsvCall(sc, r) ==
    LET h == RDiv(sc.dt, RInt(sc.n))
        K == TLCEval([i \in 1..(sc.n + 1) |-> SnapMotion(sc, IF i <= sc.n THEN r.evals[i].s ELSE r.last)])
        f == TLCEval([i \in 1..sc.n |-> SnapLoads(sc, r.evals[i].s)])
        R == TLCEval([i \in 1..sc.n |-> SnapReactions(sc, IF i < sc.n THEN r.evals[i + 1].s ELSE r.last)])
        Zero == TLCEval([b \in sc.In |-> Zero3])
        A == TLCEval([i \in 1..sc.n |->
                IF i = 1 THEN Zero
                ELSE Acceleration(RowsOf(sc.js, K[i - 1]), Attached(sc.js, sc.In), sc.M, f[i - 1], R[i - 1])])
    IN Started(sc, K[1])
       \cup UNION {EvalClauses(sc, r.evals[i], K[i], A[i], f[i]) : i \in 1..sc.n}
       \cup UNION {NsvClauses(sc, h, K[i], K[i + 1], f[i], R[i]) : i \in 1..sc.n}
       \cup Fail({"C09", "C17"}, "published reactions are those of the last evaluation",
                 SameReactions(sc.js, ReadF(sc, r.F), R[sc.n], RParse("1e-14")))

GenericCall(sc, r) ==
    LET h == RDiv(sc.dt, RInt(sc.n))
        c == StageCount(sc.method)
        N == sc.n * c
        es == TLCEval([i \in 1..N |-> [K |-> SnapMotion(sc, r.evals[i].s), A |-> SnapAcc(sc, r.evals[i].s),
                                       f |-> SnapLoads(sc, r.evals[i].s), R |-> SnapReactions(sc, r.evals[i].s)]])
        end == SnapMotion(sc, r.last)
        Zero == TLCEval([b \in sc.In |-> Zero3])
        K1(q) == IF q < sc.n THEN es[c * q + 1].K ELSE end      \* motion after sub-step q
        F == ReadF(sc, r.F)
        want == TLCEval([j \in DOMAIN sc.js |->
                    TLCEval([i \in 1..RowCount(sc.js[j].kind) |->
                        TLCEval([e \in 1..Len(sc.js[j].b) |->
                            TLCEval([d \in 1..3 |->
                                PublishedReaction(sc.method,
                                    TLCEval([q \in 1..c |-> es[N - c + q].R[j][i][e][d]]))])])])])
        fsize == RMaxF(TLCEval([j \in DOMAIN sc.js |->
                    RMaxF(TLCEval([i \in 1..RowCount(sc.js[j].kind) |->
                        RMaxF(TLCEval([e \in 1..Len(sc.js[j].b) |->
                            RMaxF(TLCEval([d \in 1..3 |->
                                RMaxF(TLCEval([q \in 1..c |-> RAbs(es[N - c + q].R[j][i][e][d])]))]))]))]))]))
    IN Started(sc, es[1].K)
       \cup UNION {EvalClauses(sc, r.evals[i], es[i].K, IF i = 1 THEN Zero ELSE es[i - 1].A, es[i].f) : i \in 1..N}
       \cup UNION {GenericClauses(sc, es[i].K, es[i].A, es[i].f, es[i].R) : i \in 1..N}
       \cup UNION {MethodClauses(sc, h, TLCEval([q \in 1..c |-> es[c * (s - 1) + q]]), K1(s)) : s \in 1..sc.n}
       \cup Fail({"C09", "C17"}, "published reactions are those of the last evaluation, or their mean",
                 \A j \in DOMAIN sc.js : \A i \in 1..RowCount(sc.js[j].kind) :
                   \A e \in 1..Len(sc.js[j].b) : \A d \in 1..3 :
                     RNear(F[j][i][e][d], want[j][i][e][d], fsize, RParse("1e-13")))
       \cup Fail({"C11"}, "the integrator is started, stepped and ended once per sub-step",
                 r.starts = sc.n /\ r.ends = sc.n /\ r.odesteps = N)
=============================================================================
