------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Behaviours of the library, recorded by the driver, checked against the  *)
(* specification.                                                          *)
(*                                                                         *)
(* The state is the world the specification predicts: the objects that     *)
(* exist, their parameters, who belongs to which system, how much time a   *)
(* system has simulated, what each frame cost, what every matrix holds.    *)
(* Every recorded line is one transition.  A transition yields the next    *)
(* world and the clauses the recorded observation violates; after a        *)
(* violation the world is anchored to the observation again, so that one   *)
(* violation does not hide others.                                         *)
(***************************************************************************)
EXTENDS Advance, Registry, Profile, BlockSparse, LinearSystems, SequencesExt, Json

VARIABLES w,      \* the world
          l,      \* the next line of the trace
          bad     \* violations found so far

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

Nothing == <<>>           \* the function on the empty set
NewWorld ==
    [lost |-> FALSE, body |-> Nothing, joint |-> Nothing, gen |-> Nothing, solver |-> Nothing, ode |-> Nothing,
     sys |-> Nothing, pb |-> Nothing, pj |-> Nothing, pg |-> Nothing, F |-> Nothing,
     mat |-> Nothing, sp |-> Nothing, st |-> Nothing, run |-> Nothing, tag |-> Nothing]

With(f, x, v) == (x :> v) @@ f
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Outcome(world, fails) == [w |-> world, no |-> fails]
Fine(world) == Outcome(world, {})
Rs(a, from, n) == TLCEval([i \in 1..n |-> RRead(a[from + i - 1])])

-----------------------------------------------------------------------------
(* Bodies *)
ReadBody(v) == [k |-> Motion(v[1], v[2], v[3], v[4], v[5], v[6]), m |-> <<RRead(v[7]), RRead(v[8])>>]
ReadBodies(r) == TLCEval([b \in DOMAIN r.bodies |-> ReadBody(r.bodies[b])])
BodiesFinite(r) == RAllFinite(r.bodies)
Unchanged(world, r, S) == \A b \in S : ReadBody(r.bodies[b]) = world.body[b]

JointParams(kind, v) ==
    CASE kind = "pin" -> [lx |-> v[1], ly |-> v[2], wx |-> v[3], wy |-> v[4], ks |-> v[5], kd |-> v[6]]
      [] kind = "rot" -> [th |-> v[1], ks |-> v[2], kd |-> v[3]]
      [] kind = "line" -> [lx |-> v[1], ly |-> v[2], x0 |-> v[3], y0 |-> v[4], dx |-> v[5], dy |-> v[6], ks |-> v[7], kd |-> v[8]]
      [] kind = "link" -> [x1 |-> v[1], y1 |-> v[2], x2 |-> v[3], y2 |-> v[4], maxF |-> v[5], ks |-> v[6], kd |-> v[7]]
      [] kind = "roll" -> [lx |-> v[1], ly |-> v[2], dx |-> v[3], dy |-> v[4], r |-> v[5], ks |-> v[6], kd |-> v[7]]
      [] kind = "gear" -> [ratio |-> v[1], neutral |-> ~RIsZero(v[2]), ks |-> v[3], kd |-> v[4]]
      [] kind \in {"clutch", "fric"} -> [lo |-> v[1], hi |-> v[2], ks |-> v[3], kd |-> v[4]]
      [] kind = "crot" -> [speed |-> v[1], lo |-> v[2], hi |-> v[3], ks |-> v[4], kd |-> v[5]]
JointArity(kind) ==
    CASE kind \in {"pin"} -> 6 [] kind = "rot" -> 3 [] kind = "line" -> 8 [] kind \in {"link", "roll"} -> 7
      [] kind \in {"gear", "clutch", "fric"} -> 4 [] kind = "crot" -> 5
GenParams(kind, v) ==
    CASE kind = "gravity" -> [g |-> v[1]]
      [] kind = "static" -> [fx |-> v[1], fy |-> v[2], px |-> v[3], py |-> v[4]]
      [] kind = "spring" -> [x1 |-> v[1], y1 |-> v[2], x2 |-> v[3], y2 |-> v[4], rest |-> v[5], ks |-> v[6], kd |-> v[7]]
      [] kind = "motor" -> [ks |-> v[1], kd |-> v[2], max |-> v[3], speed |-> v[4]]
GenArity(kind) == CASE kind = "gravity" -> 1 [] kind \in {"static", "motor"} -> 4 [] kind = "spring" -> 7
Given(x) == ToString(x) # ToString("-")        \* an argument that is not left out
Names(a, b) == SelectSeq(<<a, b>>, LAMBDA n : n # "-")

OnBody(world, a, r) ==
    Outcome([world EXCEPT !.body = With(@, a[1], [k |-> Motion(a[2], a[3], a[4], a[5], a[6], a[7]),
                                                  m |-> <<RRead(a[8]), RRead(a[9])>>]),
                          !.pb = With(@, a[1], Out)],
            Fail({"C01"}, "a new body is in no system", r.index = -1))
OnBset(world, a) == Fine([world EXCEPT !.body[a[1]].k = Motion(a[2], a[3], a[4], a[5], a[6], a[7])])
OnBmass(world, a) == Fine([world EXCEPT !.body[a[1]].m = <<RRead(a[2]), RRead(a[3])>>])
OnBget(world, a, r) ==
    Outcome(world, Fail({"C01", "C09"}, "nothing but a step moves a body", ReadBody(r.b) = world.body[a[1]]))
OnBreset(world, a, r) ==
    IF RAllFinite(r.b)
    THEN Outcome([world EXCEPT !.body[a[1]] = ReadBody(r.b), !.pb[a[1]] = Stale],
                 Fail({"C03"}, "a body that is reset rests at the origin",
                      LET k == ReadBody(r.b).k IN \A c \in Comp : RIsZero(k[c])))
    ELSE Outcome([world EXCEPT !.lost = TRUE], {"a reset body has values"})
OnEnergy(world, a, r) ==
    LET b == world.body[a[1]]
        e == KineticEnergy(b.k, b.m[1], b.m[2])
    IN Outcome(world, Fail({"C15"}, "kinetic energy of a body", RAllFinite(r.E) /\ RNearS(RRead(r.E), e, Tiny)))

PointSize(k, u) == RSum(<<RAbs(k.x), RAbs(k.y), RAbs(u[1]), RAbs(u[2])>>)
VecNear(x, y, want, size) == RAllFinite(<<x, y>>) /\ RNear(RRead(x), want[1], size, RParse("1e-13"))
                                                 /\ RNear(RRead(y), want[2], size, RParse("1e-13"))
OnFrame(world, e, a, r) ==
    LET k == world.body[a[1]].k
        u == <<RRead(a[2]), RRead(a[3])>>
        want == IF e = "l2w" THEN LocalToWorld(k, u) ELSE WorldToLocal(k, u)
    IN Outcome(world, Fail({"C03"}, "frame conversion", VecNear(r.x, r.y, want, PointSize(k, u)))
                      \cup Fail({"C03"}, "frame conversion and back", VecNear(r.bx, r.by, u, PointSize(k, u))))

OnJoint(world, a, r) ==
    LET j == [kind |-> a[2], b |-> Names(a[3], a[4]), p |-> JointParams(a[2], Rs(a, 5, JointArity(a[2])))]
    IN Outcome([world EXCEPT !.joint = With(@, a[1], j), !.pj = With(@, a[1], Out)],
               Fail({"C01"}, "a new joint is in no system", r.index = -1)
               \cup Fail({"C01"}, "number of rows and bodies of a joint",
                         r.rows = RowCount(a[2]) /\ r.bodies = BodyCount(a[2])))
OnJset(world, a) ==
    LET k == world.joint[a[1]].kind
    IN Fine([world EXCEPT !.joint[a[1]].p = JointParams(k, Rs(a, 2, JointArity(k)))])
OnGen(world, a) ==
    Fine([world EXCEPT !.gen = With(@, a[1], [kind |-> a[2], b |-> Names(a[3], a[4]), p |-> GenParams(a[2], Rs(a, 5, GenArity(a[2])))]),
                       !.pg = With(@, a[1], Out)])
OnGset(world, a) ==
    LET k == world.gen[a[1]].kind
    IN Fine([world EXCEPT !.gen[a[1]].p = GenParams(k, Rs(a, 2, GenArity(k)))])
OnSpringObs(world, a, r) ==
    LET g == world.gen[a[1]]
        K == TLCEval([b \in DOMAIN world.body |-> world.body[b].k])
        one == LocalToWorld(K[g.b[1]], <<g.p.x1, g.p.y1>>)
        two == LocalToWorld(K[g.b[2]], <<g.p.x2, g.p.y2>>)
        l1 == PointSize(K[g.b[1]], <<g.p.x1, g.p.y1>>)
        l2 == PointSize(K[g.b[2]], <<g.p.x2, g.p.y2>>)
    IN Outcome(world,
         Fail({"C15"}, "energy of a spring",
              RAllFinite(r.E) /\ RNear(RRead(r.E), SpringEnergy(g, K),
                                       RMul(RAbs(g.p.ks), RSq(RSum(<<l1, l2, RAbs(g.p.rest)>>))), RParse("1e-13")))
         \cup Fail({"C04", "C15"}, "ends of a spring",
              VecNear(r.x1, r.y1, one, l1) /\ VecNear(r.x2, r.y2, two, l2)))

OnSolver(world, a, r) ==
    LET s == [kind |-> a[2],
              it |-> IF a[2] = "ge" THEN 1 ELSE r.it,
              delta |-> IF a[2] = "gs" THEN RRead(r.delta) ELSE RZero,
              maxerr |-> IF a[2] = "cg" THEN RAbs(RRead(r.maxerr)) ELSE RZero,
              minerr |-> IF a[2] = "cg" THEN RRead(r.minerr) ELSE RZero]
        got == \A i \in 3..Len(a) : Given(a[i]) =>
                 RRead(a[i]) = (IF i = 3 THEN RInt(s.it) ELSE IF i = 5 THEN RRead(r.minerr)
                                ELSE IF a[2] = "gs" THEN s.delta ELSE RRead(r.maxerr))
    IN Outcome([world EXCEPT !.solver = With(@, a[1], s)],
               Fail({"C12"}, "a solver keeps the settings it is given", got)
               \cup Fail({"C08"}, "the limited solver says so", r.limits = (IF a[2] = "gs" THEN 1 ELSE 0)))
OnOde(world, a) ==
    Fine([world EXCEPT !.ode = With(@, a[1], a[2]),
                       !.run = With(@, a[1], [phase |-> <<"idle">>, n |-> 0, h |-> RZero, es |-> <<>>])])

-----------------------------------------------------------------------------
(* Systems *)
OnSys(world, a, r) ==
    LET y == [nsv |-> a[2] = "nsv", solver |-> a[3], ode |-> IF a[2] = "nsv" THEN "-" ELSE a[4],
              beta |-> IF a[2] = "nsv" THEN (IF ~Given(a[4]) THEN RRead(r.beta) ELSE RRead(a[4])) ELSE RZero,
              t |-> RZero, ts |-> RZero, frames |-> <<>>]
    IN Outcome([world EXCEPT !.sys = With(@, a[1], y)],
               Fail({"C01"}, "a new system is empty", r.nb = 0 /\ r.nj = 0 /\ r.ng = 0 /\ r.nf = 0 /\ r.at = <<>>)
               \cup Fail({"C16"}, "a new system starts at time zero", RIsZero(RRead(r.t))))
OnInit(world, a) ==
    Fine([world EXCEPT !.sys[a[1]].solver = a[2], !.sys[a[1]].ode = IF world.sys[a[1]].nsv THEN "-" ELSE a[3]])
OnBeta(world, a) == Fine([world EXCEPT !.sys[a[1]].beta = RRead(a[2])])

RowsIn(world, y) ==
    LET js == SetToSeq(Members(world.pj, y))
    IN SumInt([i \in 1..Len(js) |-> RowCount(world.joint[js[i]].kind)], Len(js))
RegistryClauses(world, y, r) ==
    IF "ib" \notin DOMAIN r THEN {}
    ELSE Fail({"C01"}, "bodies are numbered", MembersNumbered(world.pb, y, r.ib))
         \cup Fail({"C01"}, "joints are numbered", MembersNumbered(world.pj, y, r.ij))
         \cup Fail({"C01"}, "generators are numbered", MembersNumbered(world.pg, y, r.ig))
         \cup Fail({"C01"}, "what is in no system publishes -1",
                   OutsidersUnnumbered(world.pb, r.ib) /\ OutsidersUnnumbered(world.pj, r.ij))
         \cup Fail({"C01"}, "lookup finds the members", r.at # <<"?">> /\ LookupAgrees(world.pb, y, r.ib, r.at))
         \cup Fail({"C01"}, "counts", /\ r.nb = Cardinality(Members(world.pb, y))
                                      /\ r.nj = Cardinality(Members(world.pj, y))
                                      /\ r.ng = Cardinality(Members(world.pg, y))
                                      /\ r.nf = RowsIn(world, y))
         \cup Fail({"C01"}, "membership changes leave bodies alone", Unchanged(world, r, DOMAIN r.bodies))
         \cup Fail({"C16"}, "elapsed time", world.sys[y].nsv => RNear(RRead(r.t), world.sys[y].t, world.sys[y].ts, Tiny))
Registered(world, y, r) == Outcome(world, RegistryClauses(world, y, r))

OnMember(world, e, a, r) ==
    LET y == a[1] IN
    Registered(
        CASE e = "addb" -> [world EXCEPT !.pb = DoAdd(@, a[2], y)]
          [] e = "addj" -> [world EXCEPT !.pj = DoAdd(@, a[2], y)]
          [] e = "addg" -> [world EXCEPT !.pg = DoAdd(@, a[2], y)]
          [] e = "remb" -> [world EXCEPT !.pb = DoRemove(@, a[2])]
          [] e = "remj" -> [world EXCEPT !.pj = DoRemove(@, a[2])]
          [] e = "remg" -> [world EXCEPT !.pg = DoRemove(@, a[2])]
          [] e = "reset" -> [world EXCEPT !.pb = DoReset(@, y), !.pj = DoReset(@, y), !.pg = DoReset(@, y)]
          [] e = "obs" -> world,
        y, r)
\* what the commands above presuppose; a trace that breaks it is not a behaviour to check
MemberAllowed(world, e, a) ==
    CASE e = "addb" -> CanAdd(world.pb, a[2]) [] e = "addj" -> CanAdd(world.pj, a[2]) [] e = "addg" -> CanAdd(world.pg, a[2])
      [] e = "remb" -> CanRemove(world.pb, a[2], a[1]) [] e = "remj" -> CanRemove(world.pj, a[2], a[1])
      [] e = "remg" -> CanRemove(world.pg, a[2], a[1]) [] OTHER -> TRUE

InOrder(idx, S) == TLCEval([i \in 1..Cardinality(S) |-> CHOOSE x \in S : idx[x] = i - 1])
RECURSIVE Firsts(_, _, _)
Firsts(order, js, acc) ==       \* how many rows precede those of each joint
    IF order = <<>> THEN [j \in {} |-> 0]
    ELSE (Head(order) :> acc) @@ Firsts(Tail(order), js, acc + RowCount(js[Head(order)].kind))

Scene(world, y, dt, n, r) ==
    LET s == world.sys[y]
        in == Members(world.pb, y)
        mj == Members(world.pj, y)
        js == TLCEval([j \in mj |-> world.joint[j]])
        order == InOrder(r.ij, mj)
        base == [In |-> in, js |-> js, gens |-> Members(world.pg, y),
                 gs |-> TLCEval(LET q == SetToSeq(Members(world.pg, y)) IN [i \in 1..Len(q) |-> world.gen[q[i]]]),
                 M |-> TLCEval([b \in in |-> world.body[b].m]), at |-> r.at, order |-> order,
                 first |-> TLCEval(Firsts(order, js, 0)),
                 sv |-> world.solver[s.solver], method |-> IF s.nsv THEN "nsv" ELSE world.ode[s.ode],
                 beta |-> s.beta, dt |-> dt, n |-> n,
                 K0 |-> TLCEval([b \in DOMAIN world.body |-> world.body[b].k])]
    IN [In |-> base.In, js |-> base.js, gens |-> base.gens, gs |-> base.gs, M |-> base.M, at |-> base.at,
        order |-> base.order, first |-> base.first, sv |-> base.sv, method |-> base.method, beta |-> base.beta,
        dt |-> base.dt, n |-> base.n, K0 |-> base.K0, place |-> PlaceOf(base)]

Numbered(world, y, r) ==
    /\ Len(r.at) = Cardinality(Members(world.pb, y)) /\ {r.at[i] : i \in 1..Len(r.at)} = Members(world.pb, y)
    /\ MembersNumbered(world.pj, y, r.ij)
MotionFields == {"px", "py", "th", "vx", "vy", "om", "fx", "fy", "ft"}
SnapFinite(s) == \A c \in DOMAIN s : RAllFinite(s[c])
EvalsFinite(world, y, r) ==
    /\ \A i \in 1..Len(r.evals) :
         LET s == r.evals[i].s
         IN IF world.sys[y].nsv /\ i = 1 THEN \A c \in MotionFields : RAllFinite(s[c]) ELSE SnapFinite(s)
    /\ SnapFinite(r.last)
ResultFinite(world, y, r) ==
    /\ \A b \in Members(world.pb, y) : RAllFinite(r.bodies[b])
    /\ \A j \in Members(world.pj, y) : RAllFinite(r.F[j])

Lost(world, fails) == Outcome([world EXCEPT !.lost = TRUE], fails)
Spent(world, y, list) ==
    LET all == world.sys[y].frames \o list
    IN IF Len(all) > 600 THEN SubSeq(all, Len(all) - 599, Len(all)) ELSE all

\* the world after a call: motion and reactions as observed, time and cost as predicted
Advanced(world, y, total, size, r, list) ==
    [world EXCEPT !.body = ReadBodies(r) @@ @,
                  !.F = [j \in Members(world.pj, y) |-> r.F[j]] @@ @,
                  !.sys[y].t = RAdd(@, total), !.sys[y].ts = RAdd(@, size),
                  !.sys[y].frames = Spent(world, y, list)]

AfterCall(world, y, r, next) ==
    Fail({"C09", "C17"}, "bodies outside the system do not change",
         Unchanged(world, r, DOMAIN world.body \ Members(world.pb, y)))
    \cup Fail({"C09"}, "masses do not change",
              \A b \in Members(world.pb, y) : ReadBody(r.bodies[b]).m = world.body[b].m)
    \cup Fail({"C16"}, "elapsed time",
              world.sys[y].nsv => RAllFinite(r.t) /\ RNear(RRead(r.t), next.sys[y].t, next.sys[y].ts, Tiny))

OnProcess(world, a, r) ==
    LET y == a[1]
        dt == RRead(a[2])
        n == a[3]
        quiet == Len(a) > 3 /\ a[4] = "quiet"
        stages == IF world.sys[y].nsv THEN 1 ELSE StageCount(world.ode[world.sys[y].ode])
        idle == RowsIn(world, y) = 0 /\ r.evals = <<>>
        next == Advanced(world, y, dt, RAbs(dt), r, <<r.spent>>)
        sc == Scene(world, y, dt, n, r)
    IN IF ~Numbered(world, y, r) THEN Lost(world, {"the members are numbered"})
       ELSE IF ~ResultFinite(world, y, r) THEN Lost(world, {"motion and reactions have values"})
       ELSE IF quiet \/ idle THEN Outcome(next, AfterCall(world, y, r, next))
       ELSE IF Len(r.evals) # n * stages
            THEN Outcome(next, AfterCall(world, y, r, next)
                               \cup Fail({"C01", "C04", "C11", "C16"}, "number of evaluations", FALSE))
       ELSE IF ~EvalsFinite(world, y, r) THEN Lost(world, {"evaluations have values"})
       ELSE Outcome(next,
              (IF world.sys[y].nsv THEN NsvCall(sc, r) ELSE GenericCall(sc, r))
              \cup Ended(sc, SnapMotion(sc, r.last), TLCEval([b \in sc.In |-> ReadBody(r.bodies[b]).k]))
              \cup Fail({"C01", "C16"}, "nothing is evaluated after the last evaluation", r.tailg = <<>> /\ r.tailj = <<>>)
              \cup AfterCall(world, y, r, next))

OnRuns(world, a, r) ==
    LET y == a[1]
        n == a[4]
        next == Advanced(world, y, RMul(RInt(n), RRead(a[2])), RMul(RInt(n), RAbs(RRead(a[2]))), r, r.spent)
    IN IF ~ResultFinite(world, y, r) THEN Lost(world, {"motion and reactions have values"})
       ELSE Outcome(next, AfterCall(world, y, r, next))

FrameMean(frames, i) == MeanAt(frames, i)
OnProfile(world, a, r) ==
    LET fr == world.sys[a[1]].frames
        Near(x, i) == RAllFinite(x) /\ RNearS(RRead(x), FrameMean(fr, i), RParse("1e-6"))
    IN Outcome(world, Fail({"C20"}, "integration time", Near(r.ode, 1)) \cup Fail({"C20"}, "solution time", Near(r.solve, 2))
                      \cup Fail({"C20"}, "load time", Near(r.force, 3)) \cup Fail({"C20"}, "evaluation time", Near(r.eval, 4)))

\* everything the library was asked to create is gone again
NoObjects(world) ==
    /\ world.sys = Nothing /\ world.solver = Nothing /\ world.ode = Nothing /\ world.mat = Nothing
    /\ world.sp = Nothing /\ world.st = Nothing
OnHeap(world, r) ==
    Outcome(world, Fail({"C19"}, "everything acquired is released", NoObjects(world) => r.live = 0))

-----------------------------------------------------------------------------
(* Outcomes that have to agree: tag T nb b.. nj j.. remembers motions and   *)
(* reactions, same PROPERTY T1 T2 tol [phi dx dy] compares them (the second *)
(* being the first turned by phi and shifted by (dx, dy)).                  *)
OnTag(world, a) ==
    LET nb == a[2]
        nj == a[3 + nb]
    IN Fine([world EXCEPT !.tag = With(@, a[1],
            [k |-> TLCEval([i \in 1..nb |-> world.body[a[2 + i]].k]),
             f |-> TLCEval([i \in 1..nj |->
                    LET F == world.F[a[3 + nb + i]]
                    IN TLCEval([q \in 1..Len(F) |-> TLCEval([s \in 1..Len(F[q]) |-> RReadSeq(F[q][s])])])])])])
TurnMotion(k, phi, d) ==
    LET p == VAdd(Turn(phi, <<k.x, k.y>>), d)
        v == Turn(phi, <<k.vx, k.vy>>)
    IN [x |-> p[1], y |-> p[2], th |-> RAdd(k.th, phi), vx |-> v[1], vy |-> v[2], om |-> k.om]
\* force of all rows of a joint on its s-th body
Total(f, s) == TLCEval([c \in 1..3 |-> RSum(TLCEval([q \in 1..Len(f) |-> f[q][s][c]]))])
OnSame(world, a) ==
    LET one == world.tag[a[2]]
        two == world.tag[a[3]]
        tol == RRead(a[4])
        moved == Len(a) > 4
        phi == IF moved THEN RRead(a[5]) ELSE RZero
        d == IF moved THEN <<RRead(a[6]), RRead(a[7])>> ELSE VZero
        want == TLCEval([i \in 1..Len(one.k) |-> IF moved THEN TurnMotion(one.k[i], phi, d) ELSE one.k[i]])
        places == RMaxF(TLCEval([i \in 1..Len(want) |-> RMaxF([c \in {"x", "y", "th"} |-> RAbs(want[i][c])])]))
        speeds == RMaxF(TLCEval([i \in 1..Len(want) |-> RMaxF([c \in {"vx", "vy", "om"} |-> RAbs(want[i][c])])]))
        big == [c \in Comp |-> IF c \in {"x", "y", "th"} THEN places ELSE speeds]
        \* a solver's error in one call is a bias for the reactions of the next: their scale is that of the scenario
        Pull(o) == RMaxF(TLCEval([i \in 1..Len(o.f) |-> RMaxF(TLCEval([q \in 1..Len(o.f[i]) |->
                    RMaxF(TLCEval([s \in 1..Len(o.f[i][q]) |-> RMaxF(TLCEval([c \in 1..3 |-> RAbs(o.f[i][q][s][c])]))]))]))]))
        fsize == RMaxF(TLCEval([n \in DOMAIN world.tag |-> Pull(world.tag[n])]))
        Turned(u) == LET t == Turn(phi, <<u[1], u[2]>>) IN <<t[1], t[2], u[3]>>
        \* joints that have nearly run into each other throw their bodies about: rounding grows without bound there
        \* (once that has happened in a scenario, what comes later differs as well)
        Pace1(o) == RMaxF(TLCEval([i \in 1..Len(o.k) |-> RMaxF([c \in {"vx", "vy", "om"} |-> RAbs(o.k[i][c])])]))
        calm == \A n \in DOMAIN world.tag : RLe(Pace1(world.tag[n]), RInt(60))
    IN Outcome(world,
       IF ~calm THEN {} ELSE
         Fail({a[1]}, "the same motion", \A i \in 1..Len(want) : MotionNear(two.k[i], want[i], big, tol))
         \cup Fail({a[1]}, "the same reactions",
              \A i \in 1..Len(one.f) :
                 IF moved
                 THEN \A s \in 1..Len(one.f[i][1]) : \A c \in 1..3 :
                        RNear(Total(two.f[i], s)[c], Turned(Total(one.f[i], s))[c], fsize, tol)
                 ELSE \A q \in 1..Len(one.f[i]) : \A s \in 1..Len(one.f[i][q]) : \A c \in 1..3 :
                        RNear(two.f[i][q][s][c], one.f[i][q][s][c], fsize, tol)))

-----------------------------------------------------------------------------
(* System states on their own *)
StFields == <<"px", "py", "th", "vx", "vy", "om", "ax", "ay", "at", "fx", "fy", "ft", "m">>
RowFields == <<"rx", "ry", "rt", "im">>
RowField == {"rx", "ry", "rt", "im"}
StField == {StFields[i] : i \in 1..Len(StFields)}

\* only what was written is known; st[name] = [n, nc, v] with v the last observation (or Nothing)
Prefix(s, n) == SubSeq(s, 1, n)
ReadState(t) ==
    TLCEval([c \in DOMAIN t |-> IF c \in StField \cup RowField THEN RReadSeq(t[c]) ELSE IF c = "dt" THEN RRead(t.dt) ELSE t[c]])
OnSt(world, a) == Fine([world EXCEPT !.st = With(@, a[1], [n |-> 0, nc |-> 0, v |-> Nothing])])
OnStResize(world, a, r) ==
    LET s == world.st[a[1]]
        same == s.n = r.n /\ s.nc = r.nc
    IN Outcome([world EXCEPT !.st[a[1]] = [n |-> r.n, nc |-> r.nc, v |-> IF same THEN s.v ELSE Nothing]],
               Fail({"C19"}, "room for the requested bodies and rows", r.n >= a[2] /\ r.nc >= a[3]))
Remember(world, name, v) == [world EXCEPT !.st[name] = [n |-> v.n, nc |-> v.nc, v |-> v]]
OnStCopy(world, a, r) ==
    LET t == ReadState(r.st)
        s == ReadState(r.src)
        known == world.st[a[2]].v
    IN Outcome(Remember(world, a[1], t),
         Fail({"C19"}, "a copy has room for its source", t.n >= s.n /\ t.nc >= s.nc)
         \cup Fail({"C19"}, "per-body quantities are copied",
                   t.n >= s.n => \A c \in StField : Prefix(t[c], s.n) = s[c])
         \cup Fail({"C19"}, "per-row quantities are copied",
                   t.nc >= s.nc => /\ \A c \in {"rx", "ry", "rt"} : Prefix(t[c], 2 * s.nc) = s[c]
                                   /\ Prefix(t.im, s.nc) = s.im)
         \cup Fail({"C19"}, "the source of a copy stays as it was", known # Nothing => s = known))
OnStGet(world, a, r) ==
    LET known == world.st[a[1]].v
        got == ReadState(r.st)
    IN Outcome(Remember(world, a[1], got),
               Fail({"C19"}, "a state keeps what was stored", known # Nothing => got = known))
OnStDestroy(world, a, r) ==
    Outcome([world EXCEPT !.st[a[1]] = [n |-> 0, nc |-> 0, v |-> Nothing]],
            Fail({"C19"}, "a destroyed state is empty", r.n = 0 /\ r.nc = 0))

StMotion(v, i) == [x |-> v.px[i], y |-> v.py[i], th |-> v.th[i], vx |-> v.vx[i], vy |-> v.vy[i], om |-> v.om[i]]
StUse(world, e, a, r) ==
    LET i == a[2] + 1
        u == <<RRead(a[3]), RRead(a[4])>>
        k == StMotion(world.st[a[1]].v, i)
        pace == RMul(RAdd(ROne, RAbs(k.om)), RAdd(RAdd(RAbs(k.vx), RAbs(k.vy)), PointSize(k, u)))
    IN IF e = "stl2w"
       THEN Outcome(world, Fail({"C03"}, "a state converts points as bodies do",
                                VecNear(r.x, r.y, LocalToWorld(k, u), PointSize(k, u))))
       ELSE Outcome(world, Fail({"C03"}, "velocity of a point", VecNear(r.x, r.y, PointVelocity(k, u), pace)))
SameButLoads(v, old, i) ==      \* all but the loads on body i
    /\ v.n = old.n /\ v.nc = old.nc /\ v.dt = old.dt
    /\ \A c \in StField \ {"fx", "fy", "ft"} : v[c] = old[c]
    /\ \A c \in RowField : v[c] = old[c]
    /\ \A c \in {"fx", "fy", "ft"} : \A q \in 1..v.n : q # i => v[c][q] = old[c][q]
OnStForce(world, a, r) ==
    LET old == world.st[a[1]].v
        v == ReadState(r.st)
        i == a[2] + 1
        k == StMotion(old, i)
        u == <<RRead(a[3]), RRead(a[4])>>
        f == <<RRead(a[5]), RRead(a[6])>>
        want == ForceAt(k, u, f)
        size == RMul(RAdd(ROne, PointSize(k, u)), RAdd(RAbs(f[1]), RAbs(f[2])))
        c == <<"fx", "fy", "ft">>
    IN Outcome(Remember(world, a[1], v),
         Fail({"C03"}, "a force and its moment are added",
              \A q \in 1..3 : RNear(v[c[q]][i], RAdd(old[c[q]][i], want[q]),
                                   RAdd(size, RAbs(old[c[q]][i])), RParse("1e-13")))
         \cup Fail({"C03"}, "a force changes nothing else", SameButLoads(v, old, i)))

\* members' index in a free-standing state: the index they publish, given in the record
OnCalc(world, a, r) ==
    LET j == world.joint[a[1]]
        got == ReadState(r.st)
        ks == TLCEval([s \in 1..Len(j.b) |-> IF r.ix[s] >= 0 THEN StMotion(got, r.ix[s] + 1) ELSE world.body[j.b[s]].k])
        known == world.st[a[2]].v
    IN Outcome(Remember(world, a[2], got),
               RowClauses(j, ks, r.rows)
               \cup Fail({"C05"}, "evaluating a joint changes nothing", known # Nothing => got = known))
OnApply(world, a, r) ==
    LET g == world.gen[a[1]]
        old == world.st[a[2]].v
        y == CHOOSE y \in DOMAIN world.sys : TRUE
        in == Members(world.pb, y)
        idx == r.ib
        K == TLCEval([b \in DOMAIN world.body |-> IF b \in in THEN StMotion(old, idx[b] + 1) ELSE world.body[b].k])
        A == TLCEval([b \in in |-> <<old.ax[idx[b] + 1], old.ay[idx[b] + 1], old.at[idx[b] + 1]>>])
        mass == TLCEval([b \in in |-> <<old.m[idx[b] + 1], ROne>>])
        want == Loads(<<g>>, K, A, mass, in)
        size == LoadSizes(<<g>>, K, A, mass, in)
        c == <<"fx", "fy", "ft">>
        props == IF g.kind = "spring" /\ RIsZero(g.p.kd) THEN {"C04", "C15"} ELSE {"C04"}
        got == ReadState(r.st)
    IN Outcome(Remember(world, a[2], got),
         Fail(props, "load of a generator",
              \A b \in in : \A q \in 1..3 :
                LET i == idx[b] + 1
                    was == old[c[q]][i]
                IN RNear(got[c[q]][i], RAdd(was, want[b][q]), RAdd(RAbs(was), size[b][q]), RParse("1e-10")))
         \cup Fail({"C04"}, "a generator changes nothing but loads",
              /\ \A f \in StField \ {"fx", "fy", "ft"} : got[f] = old[f]
              /\ \A f \in RowField : got[f] = old[f]))

-----------------------------------------------------------------------------
(* Integrators on their own: ostart ODE STATE h, ostep, osolve, oend, with  *)
(* the accelerations set in between.                                        *)
AllMotion(v) == TLCEval([i \in 1..v.n |-> StMotion(v, i)])
AllAcc(v) == TLCEval([i \in 1..v.n |-> <<v.ax[i], v.ay[i], v.at[i]>>])
SameOutside(v, old, fields) == \A c \in (StField \cup RowField) \ fields : v[c] = old[c]
MotionField == {"px", "py", "th", "vx", "vy", "om"}

OnOstart(world, a, r) ==
    LET old == world.st[a[2]].v
        v == ReadState(r.st)
    IN Outcome([Remember(world, a[2], v) EXCEPT !.run[a[1]] =
                    [phase |-> ProtocolNext(world.ode[a[1]], @.phase, "start"), n |-> v.n, h |-> RRead(a[3]), es |-> <<>>]],
               Fail({"C11"}, "starting an advance moves nothing", SameOutside(v, old, {})))
RunSize(run, v, i, k1) ==
    LET ks == [q \in 1..Len(run.es) |-> run.es[q].k[i]]
        as == [q \in 1..Len(run.es) |-> run.es[q].a[i]]
        P(c, d, g) == RAdd(RAbs(k1[c]), RMul(RAbs(run.h), RSum(TLCEval([q \in 1..Len(run.es) |-> RAdd(RAbs(ks[q][d]), RAbs(RMul(run.h, as[q][g])))]))))
        Q(c, d) == RAdd(RAbs(k1[c]), RMul(RAbs(run.h), RSum(TLCEval([q \in 1..Len(run.es) |-> RAbs(as[q][d])]))))
    IN [x |-> P("x", "vx", 1), y |-> P("y", "vy", 2), th |-> P("th", "om", 3), vx |-> Q("vx", 1), vy |-> Q("vy", 2), om |-> Q("om", 3)]
Own(run, i) == [q \in 1..Len(run.es) |-> [k |-> run.es[q].k[i], a |-> run.es[q].a[i]]]
RunTol == RParse("1e-12")
OnOstep(world, a, r) ==
    LET old == world.st[a[2]].v
        run == world.run[a[1]]
        m == world.ode[a[1]]
        st == run.phase[2]
        v == ReadState(r.st)
    IN IF ~RAllFinite(r.st) THEN Lost(world, {"the state has values"})
       ELSE Outcome([Remember(world, a[2], v) EXCEPT !.run[a[1]].phase = ProtocolNext(m, @, "step")],
          Fail({"C11"}, "the last stage is announced", r.done = (IF st = StageCount(m) THEN 1 ELSE 0))
          \cup Fail({"C11"}, "states at which accelerations are asked for",
               \A i \in 1..v.n :
                 LET k1 == IF st = 1 THEN StMotion(old, i) ELSE run.es[1].k[i]
                 IN MotionNear(StMotion(v, i), Stage(m, st, k1, Own(run, i), run.h), RunSize(run, v, i, k1), RunTol))
          \cup Fail({"C11"}, "asking changes nothing but motion", SameOutside(v, old, MotionField)))
OnOsolve(world, a, r) ==
    LET old == world.st[a[2]].v
        m == world.ode[a[1]]
        was == world.run[a[1]]
        st == was.phase[2]
        last == st = StageCount(m)
        e == [k |-> AllMotion(old), a |-> AllAcc(old), rx |-> old.rx, ry |-> old.ry, rt |-> old.rt]
        run == [was EXCEPT !.es = Append(@, e)]
        v == ReadState(r.st)
        Published(c) == TLCEval([q \in 1..Len(v[c]) |->
            PublishedReaction(m, TLCEval([s \in 1..Len(run.es) |-> run.es[s][c][q]]))])
        big(c) == RMaxF(TLCEval([s \in 1..Len(run.es) |-> RMaxF(TLCEval([q \in 1..Len(v[c]) |-> RAbs(run.es[s][c][q])]))]))
    IN IF ~RAllFinite(r.st) THEN Lost(world, {"the state has values"})
       ELSE Outcome([Remember(world, a[2], v) EXCEPT !.run[a[1]] = [run EXCEPT !.phase = ProtocolNext(m, @, "solve")]],
          Fail({"C11"}, "result of the method",
               last => \A i \in 1..v.n :
                 MotionNear(StMotion(v, i), Final(m, run.es[1].k[i], Own(run, i), run.h),
                            RunSize(run, v, i, run.es[1].k[i]), RunTol))
          \cup Fail({"C11"}, "the step time is published", last => RNear(v.dt, run.h, RAbs(run.h), RunTol))
          \cup Fail({"C11", "C09"}, "reactions over the advance",
               last => \A c \in {"rx", "ry", "rt"} : LET want == Published(c) IN
                          \A q \in 1..Len(v[c]) : RNear(v[c][q], want[q], big(c), RunTol))
          \cup Fail({"C11"}, "an advance changes nothing but motion and reactions",
               SameOutside(v, old, IF last THEN MotionField \cup {"rx", "ry", "rt"} ELSE MotionField)))
OnOend(world, a) == Fine([world EXCEPT !.run[a[1]].phase = ProtocolNext(world.ode[a[1]], @, "end")])
\* (SetAcc: the driver's stset/stacc/stload/streact/stmap write one body or row of a state)
Put(world, name, i, names, vals) ==
    LET v == world.st[name].v
    IN IF v = Nothing THEN world
       ELSE [world EXCEPT !.st[name].v = [c \in DOMAIN v |->
              LET q == {q \in 1..Len(names) : names[q] = c}
              IN IF q = {} THEN v[c] ELSE [v[c] EXCEPT ![i] = vals[CHOOSE q1 \in q : TRUE]]]]

-----------------------------------------------------------------------------
(* Dense matrices.  What a resize leaves behind is unspecified; so are the  *)
(* entries of such a matrix until the whole of it is filled.                *)
ReadMat(t) == [w |-> t.w, h |-> t.h, c |-> TLCEval([i \in 1..t.h |-> RReadSeq(t.c[i])])]
MatFinite(t) == RAllFinite(t.c)
Dims(t, A) == t.w = A.w /\ t.h = A.h
\* the recorded matrix t is A, up to rounding relative to the matrix of magnitudes S
MatIs(t, A, S, tol) ==
    /\ Dims(t, A)
    /\ Filled(A) => /\ MatFinite(t)
                    /\ \A i \in 1..A.h : \A j \in 1..A.w : RNear(RRead(t.c[i][j]), A.c[i][j], S.c[i][j], tol)
MatExactly(t, A) == Dims(t, A) /\ (Filled(A) => MatFinite(t) /\ ReadMat(t).c = A.c)
MAbs(A) == LET E(j, i) == RAbs(A.c[i][j]) IN Mat(A.w, A.h, E)
Observed(A, t) == IF Filled(A) /\ MatFinite(t) THEN ReadMat(t) ELSE [w |-> t.w, h |-> t.h, c |-> IF t.w = 0 \/ t.h = 0 THEN [i \in 1..t.h |-> <<>>] ELSE Unfilled]
SetMat(world, name, A, t, what) ==
    Outcome([world EXCEPT !.mat = With(@, name, Observed(A, t))], Fail({"C13"}, what, MatExactly(t, A)))

OnMat(world, a, r) ==
    SetMat(world, a[1],
           CASE Len(a) = 1 -> NoMatrix [] Len(a) = 3 -> MConst(a[2], a[3], RZero) [] OTHER -> MConst(a[2], a[3], RRead(a[4])),
           r.t, "a new matrix")
OnMinit(world, a, r) ==
    SetMat(world, a[1], MConst(a[2], a[3], IF Len(a) = 3 THEN RZero ELSE RRead(a[4])), r.t, "initialize")
OnMresize(world, a, r) == SetMat(world, a[1], MResize(world.mat[a[1]], a[2], a[3]), r.t, "resize")
OnMdestroy(world, a, r) == SetMat(world, a[1], NoMatrix, r.t, "destroy")
OnMfree(world, a) == Fine([world EXCEPT !.mat = Without(@, a[1])])
OnMdata(world, a, r) == SetMat(world, a[1], MData(world.mat[a[1]], Rs(a, 2, Len(a) - 1)), r.t, "fill row by row")
OnMcell(world, a, r) ==
    LET A == world.mat[a[1]]
    IN SetMat(world, a[1], IF Filled(A) THEN MSetCell(A, a[2] + 1, a[3] + 1, RRead(a[4])) ELSE A, r.t, "set an entry")
OnMaddc(world, a, r) ==
    LET A == world.mat[a[1]]
        i == a[3] + 1
        j == a[2] + 1
        N == IF Filled(A) THEN MAddCell(A, j, i, RRead(a[4])) ELSE A
    IN Outcome([world EXCEPT !.mat = With(@, a[1], Observed(N, r.t))],
               Fail({"C13"}, "add to an entry", IF Filled(N) THEN MatIs(r.t, N, MAddCell(MAbs(A), j, i, RAbs(RRead(a[4]))), RParse("1e-15")) ELSE Dims(r.t, N)))
OnMswap(world, a, r) ==
    LET A == world.mat[a[1]]
    IN SetMat(world, a[1], IF Filled(A) THEN MSwap(A, a[2] + 1, a[3] + 1) ELSE A, r.t, "exchange rows")
OnMcopy(world, a, r) ==
    LET B == world.mat[a[2]]
    IN Outcome([world EXCEPT !.mat = With(@, a[1], Observed(B, r.t))],
               Fail({"C13"}, "copy", MatExactly(r.t, B)) \cup Fail({"C13"}, "the source of a copy stays", MatExactly(r.A, B)))

Magnitude(op, A, B, s) ==
    IF op = "equal" THEN A ELSE DenseResult(IF op \in {"sub", "add"} THEN "add" ELSE IF op = "neg" THEN "scale" ELSE op,
                                            MAbs(A), IF op \in {"scale", "neg", "transpose"} THEN B ELSE MAbs(B), IF op = "neg" THEN ROne ELSE RAbs(s))
OnMop(world, a, r) ==
    LET op == a[1]
        A == world.mat[a[2]]
        unary == op \in {"scale", "neg", "transpose"}
        B == IF unary THEN NoMatrix ELSE world.mat[a[3]]
        s == IF op = "scale" THEN RRead(a[3]) ELSE IF op \in {"madd", "pmadd"} THEN RRead(a[5]) ELSE RZero
        want == DenseResult(op, A, B, s)
        mag == Magnitude(op, A, B, s)
        inplace == op \in {"madd", "pmadd"}
        target == IF inplace THEN a[2] ELSE a[4]
        t == IF inplace THEN r.A ELSE r.t
        ok == MatIs(t, want, mag, RParse("1e-13"))
    IN Outcome([world EXCEPT !.mat = With(@, target, Observed(want, t))],
         Fail({"C13"}, op, ok)
         \cup Fail({"C13"}, "operands stay as they were",
              /\ (target # a[2] => MatExactly(r.A, A))
              /\ (~unary /\ target # a[3] => MatExactly(r.B, B))))
OnMval(world, a, r) ==
    LET A == world.mat[a[2]]
        B == IF a[1] = "mag" THEN A ELSE world.mat[a[3]]
        AB == MAbs(A)
        err == IF Len(a) > 3 THEN RRead(a[4]) ELSE RParse("1e-6")
    IN Outcome(world,
         Fail({"C13"}, "dot product",
              a[1] \in {"mag", "dot"} => RAllFinite(r.v) /\ RNear(RRead(r.v), MDot(A, B), MDot(AB, MAbs(B)), RParse("1e-13")))
         \cup Fail({"C13"}, "comparison", a[1] = "eq" => (r.b = 1) = MEquals(A, B, err))
         \cup Fail({"C13"}, "operands stay as they were", MatExactly(r.A, A)))

-----------------------------------------------------------------------------
(* Block-sparse matrices *)
OnSp(world, a) == Fine([world EXCEPT !.sp = With(@, a[1], NoSparse(a[2], a[3]))])
OnSpInit(world, a) == Fine([world EXCEPT !.sp[a[1]] = SInit(@, a[2], a[3])])
OnSpResize(world, a) == Fine([world EXCEPT !.sp[a[1]] = SResize(@, a[2], a[3])])
OnSpDestroy(world, a) == Fine([world EXCEPT !.sp[a[1]] = NoSparse(@.s, @.e)])
OnSpFree(world, a) == Fine([world EXCEPT !.sp = Without(@, a[1])])
OnSpBlock(world, a, r) ==
    LET S == world.sp[a[1]]
        d == Rs(a, 5, S.s)
    IN Outcome([world EXCEPT !.sp[a[1]] = SPut(S, a[2] + 1, a[3] + 1, a[4], d)],
               Fail({"C14"}, "a block holds what is put in", RAllFinite(r.v) /\ RReadSeq(r.v) = d))
OnSpEmpty(world, a, r) ==
    LET S == world.sp[a[1]]
    IN Outcome([world EXCEPT !.sp[a[1]] = SClear(S, a[2] + 1, a[3] + 1)],
               Fail({"C14"}, "a cleared block is zero", RAllFinite(r.v) /\ RReadSeq(r.v) = SZeros(S.s)))
OnSpGet(world, a, r) ==
    LET S == world.sp[a[1]]
    IN Outcome(world,
         Fail({"C14"}, "dimensions of a sparse matrix", r.w = S.w /\ r.h = S.h)
         \cup Fail({"C14"}, "a sparse matrix holds what was put in",
              r.h = S.h => \A i \in 1..S.h : \A k \in 1..S.e : <<i, k>> \in S.def =>
                \A c \in 1..S.s : RAllFinite(r.v[i][(k - 1) * S.s + c])
                                  /\ RRead(r.v[i][(k - 1) * S.s + c]) = S.v[i][k][c]))
SAbs(S) == [S EXCEPT !.v = TLCEval([i \in 1..S.h |-> TLCEval([k \in 1..S.e |-> TLCEval([c \in 1..S.s |-> RAbs(S.v[i][k][c])])])])]
\* the sparse matrix T recorded by its expansion t
SparseIs(t, S, mag, tol) == LET D == SDense(S) IN MatIs(t, D, SDense(mag), tol)
OnSpOp(world, a, r) ==
    LET op == a[1]
        S == world.sp[a[2]]
        D == SDense(S)
        SA == SAbs(S)
        DA == SDense(SA)
        tol == RParse("1e-13")
        keepA == Fail({"C14"}, "operands stay as they were", MatExactly(r.A, D) /\ r.aw = S.w /\ r.ah = S.h)
    IN CASE op \in {"expand", "texpand", "mult", "tmulv", "mul"} ->
              LET Bs == IF op = "mult" THEN world.sp[a[3]] ELSE S
                  B == IF op = "mult" THEN MTranspose(SDense(Bs)) ELSE IF op \in {"tmulv", "mul"} THEN world.mat[a[3]] ELSE NoMatrix
                  want == CASE op = "expand" -> D [] op = "texpand" -> MTranspose(D) [] op = "tmulv" -> MTMul(D, B) [] OTHER -> MMul(D, B)
                  mag == CASE op = "expand" -> DA [] op = "texpand" -> MTranspose(DA) [] op = "tmulv" -> MTMul(DA, MAbs(B)) [] OTHER -> MMul(DA, MAbs(B))
              IN Outcome([world EXCEPT !.mat = With(@, a[4], Observed(want, r.t))],
                   Fail({"C14"}, op, MatIs(r.t, want, mag, tol)) \cup keepA
                   \cup Fail({"C14"}, "operands stay as they were",
                             IF op = "mult" THEN MatExactly(r.B, SDense(Bs))
                             ELSE op \in {"tmulv", "mul"} /\ a[3] # a[4] => MatExactly(r.B, B)))
         [] op \in {"lscale", "rscale"} ->
              LET d == world.mat[a[3]]
                  want == IF op = "lscale" THEN SLeftScale(S, d) ELSE SRightScale(S, d)
                  mag == IF op = "lscale" THEN SLeftScale(SA, MAbs(d)) ELSE SRightScale(SA, MAbs(d))
                  \* a recorded target is taken over as it is, entry by entry
                  got == IF r.tw = want.w /\ r.th = want.h /\ RAllFinite(r.tv)
                         THEN [want EXCEPT !.v = TLCEval([i \in 1..want.h |-> TLCEval([k \in 1..want.e |->
                                TLCEval([c \in 1..want.s |-> RRead(r.tv[i][(k - 1) * want.s + c])])])])]
                         ELSE want
              IN Outcome([world EXCEPT !.sp = With(@, a[4], got)],
                   Fail({"C14"}, op, r.tw = S.w /\ r.th = S.h /\ SparseIs(r.t, want, mag, tol))
                   \cup Fail({"C14"}, "empty entries of a scaled matrix are zero",
                             (r.tw = S.w /\ r.th = S.h) => \A i \in 1..S.h : \A k \in 1..S.e : S.b[i][k] = NoBlock =>
                                \A c \in 1..S.s : RAllFinite(r.tv[i][(k - 1) * S.s + c]) /\ RIsZero(RRead(r.tv[i][(k - 1) * S.s + c])))
                   \cup (IF a[2] # a[4] THEN keepA ELSE {})
                   \cup Fail({"C14"}, "operands stay as they were", MatExactly(r.B, d)))

-----------------------------------------------------------------------------
(* Linear solvers on their own *)
SolveParts(world, e, a, r) ==
    LET sv == world.solver[a[1]]
        J == SDense(world.sp[a[2]])
        W == world.mat[a[3]]
        b == world.mat[a[4]]
        A == Gram(J, W)
        AA == Gram(MAbs(J), MAbs(W))
        n == J.h
        lim == e = "lsolve"
        L == IF lim THEN world.mat[a[5]] ELSE NoMatrix
        prev == IF lim THEN a[6] ELSE a[5]
        res == IF lim THEN a[7] ELSE a[6]
        bv == TLCEval([i \in 1..n |-> b.c[i][1]])
    IN [sv |-> sv, J |-> J, W |-> W, b |-> b, A |-> A, AA |-> AA, n |-> n, lim |-> lim, L |-> L,
        prev |-> prev, res |-> res, bv |-> bv]
BigEnough == RParse("1e-9")
Enormous == RParse("1e250")
MustSucceed(q) ==
    \/ q.n = 0
    \/ /\ \A i \in 1..q.n : /\ RLt(RZero, q.A.c[i][i])
                            /\ RLe(RAbs(q.bv[i]), RMul(Enormous, q.A.c[1][1]))    \* no solution beyond what can be represented
       /\ RLe(Dominance(q.A), RHalf) /\ RLe(DiagonalSpread(q.A), RInt(100))
       /\ \/ q.sv.kind = "ge"
          \/ q.sv.kind = "gs" /\ q.sv.it >= 500 /\ RLe(BigEnough, q.sv.delta)
          \/ q.sv.kind = "cg" /\ q.sv.it >= 500 /\ RLe(RParse("1e-8"), q.sv.maxerr) /\ RLe(RParse("1e-8"), q.sv.minerr)
SolveSlack(q, x, i, big) ==
    RAdd(RMul(Tiny, RAdd(IF q.sv.kind = "ge" THEN RZero ELSE ROne, big)),
         CASE q.sv.kind = "ge" -> RZero
           [] q.sv.kind = "cg" -> RMul(RParse("1.000001"), RMax(RMul(q.sv.maxerr, RAbs(q.bv[i])), q.sv.minerr))
           [] q.sv.kind = "gs" ->
                RMul(q.sv.delta, RSub(RDot(TLCEval([j \in 1..q.n |-> RAbs(q.A.c[i][j])]), TLCEval([j \in 1..q.n |-> GsReach(q.sv, x[j])])),
                                      RMul(RAbs(q.A.c[i][i]), GsReach(q.sv, x[i])))))
Solved(q, x, prevBig) ==
    LET res == Residual(q.A, x, q.bv)
        ax == TLCEval([j \in 1..q.n |-> RAbs(x[j])])
        big == RMaxF(TLCEval([i \in 1..q.n |-> RAdd(RDot(q.AA.c[i], ax), RAbs(q.bv[i]))]))
        s == TLCEval([i \in 1..q.n |-> SolveSlack(q, x, i, RAdd(big, prevBig))])
        lo(i) == q.L.c[i][1]
        hi(i) == q.L.c[i][2]
    IN IF ~q.lim THEN \A i \in 1..q.n : RLe(RAbs(res[i]), s[i])
       ELSE \A i \in 1..q.n :
              /\ RLe(lo(i), x[i]) /\ RLe(x[i], hi(i))
              /\ RLe(res[i], s[i]) \/ x[i] = lo(i)
              /\ RLe(RNeg(s[i]), res[i]) \/ x[i] = hi(i)
OnSolve(world, e, a, r) ==
    LET q == SolveParts(world, e, a, r)
        ok == r.ok = 1
        shape == r.x.h = q.n /\ (r.x.w = 1 \/ q.n = 0)
        x == TLCEval([i \in 1..q.n |-> RRead(r.x.c[i][1])])
        known == q.prev # "-" /\ Filled(world.mat[q.prev])
        \* a starting guess that is not finite, or never written, is no starting guess
        start == IF q.prev # "-" /\ world.mat[q.prev].h = q.n /\ world.mat[q.prev].w = 1
                 THEN q.prev ELSE q.res     \* without one (of this shape), Gauss-Seidel starts from the old result
        wild == ~Filled(world.mat[start]) /\ world.mat[start].h = q.n
        tame == world.mat[start].h = q.n /\ Filled(world.mat[start]) /\ world.mat[start].w = 1 =>
                  \A i \in 1..q.n : RLe(RAbs(world.mat[start].c[i][1]), RInt(10000))
        \* conjugate gradient updates its residual: it drifts relative to the largest guess on the way
        prevBig == IF q.sv.kind = "cg" /\ known /\ world.mat[q.prev].h = q.n /\ q.n > 0
                   THEN LET p == TLCEval([j \in 1..q.n |-> RAbs(world.mat[q.prev].c[j][1])])
                        IN RMul(RParse("1e-3"), RMaxF(TLCEval([i \in 1..q.n |-> RDot(q.AA.c[i], p)])))
                   ELSE RZero
        got == IF shape /\ MatFinite(r.x) THEN ReadMat(r.x)
               ELSE [w |-> r.x.w, h |-> r.x.h, c |-> IF r.x.h = 0 THEN <<>> ELSE Unfilled]
    IN Outcome([world EXCEPT !.mat = With(@, q.res, got)],
         Fail({"C12"}, "a result has one column and a row for each equation", ok => shape)
         \cup Fail({"C12"}, "success means solved", ok /\ shape /\ ~wild => MatFinite(r.x) /\ Solved(q, x, prevBig))
         \cup Fail({"C12"}, "well-conditioned systems are solved", MustSucceed(q) /\ ~wild /\ tame => ok)
         \cup Fail({"C12"}, "inputs stay as they were",
              /\ MatExactly(r.J, q.J) /\ MatExactly(r.W, q.W) /\ (a[4] # q.res => MatExactly(r.b, q.b))
              /\ (q.lim => MatExactly(r.lim, q.L))
              /\ (q.prev \notin {"-", q.res} => MatExactly(r.prev, world.mat[q.prev]))))

-----------------------------------------------------------------------------
(* Transitions *)
Handle(world, ev) ==
    LET e == ev.e
        a == ev.a
        r == ev.r
    IN CASE e = "scenario" -> Fine(NewWorld)
         [] e = "crash" -> Lost(world, {"the library aborts: " \o r.how \o " " \o r.msg})
         [] world.lost -> Fine(world)
         [] e = "body" -> OnBody(world, a, r)
         [] e = "bset" -> OnBset(world, a)
         [] e = "bmass" -> OnBmass(world, a)
         [] e = "bget" -> OnBget(world, a, r)
         [] e = "breset" -> OnBreset(world, a, r)
         [] e = "energy" -> OnEnergy(world, a, r)
         [] e \in {"l2w", "w2l"} -> OnFrame(world, e, a, r)
         [] e = "joint" -> OnJoint(world, a, r)
         [] e = "jset" -> OnJset(world, a)
         [] e = "gen" -> OnGen(world, a)
         [] e = "gset" -> OnGset(world, a)
         [] e = "springobs" -> OnSpringObs(world, a, r)
         [] e = "solver" -> OnSolver(world, a, r)
         [] e = "ode" -> OnOde(world, a)
         [] e = "sys" -> OnSys(world, a, r)
         [] e = "init" -> OnInit(world, a)
         [] e = "beta" -> OnBeta(world, a)
         [] e \in {"addb", "addj", "addg", "remb", "remj", "remg", "reset", "obs"} /\ MemberAllowed(world, e, a) ->
              OnMember(world, e, a, r)
         [] e = "process" -> OnProcess(world, a, r)
         [] e = "runs" -> OnRuns(world, a, r)
         [] e = "profile" -> OnProfile(world, a, r)
         [] e \in {"cost", "rows"} -> Fine(world)
         [] e = "delsys" -> Fine([world EXCEPT !.sys = Without(@, a[1]), !.pb = DoReset(@, a[1]),
                                               !.pj = DoReset(@, a[1]), !.pg = DoReset(@, a[1])])
         [] e = "delsolver" -> Fine([world EXCEPT !.solver = Without(@, a[1])])
         [] e = "delode" -> Fine([world EXCEPT !.ode = Without(@, a[1])])
         [] e = "heap" -> OnHeap(world, r)
         [] e = "tag" -> OnTag(world, a)
         [] e = "same" -> OnSame(world, a)
         [] e = "calc" -> OnCalc(world, a, r)
         [] e = "apply" -> OnApply(world, a, r)
         [] e = "st" -> OnSt(world, a)
         [] e = "stresize" -> OnStResize(world, a, r)
         [] e = "stfill" -> Fine(Remember(world, a[1], ReadState(r.st)))
         [] e = "stset" -> Fine(Put(world, a[1], a[2] + 1, <<"px", "py", "th", "vx", "vy", "om">>, RReadSeq(SubSeq(a, 3, 8))))
         [] e = "stacc" -> Fine(Put(world, a[1], a[2] + 1, <<"ax", "ay", "at">>, RReadSeq(SubSeq(a, 3, 5))))
         [] e = "stload" -> Fine(Put(world, a[1], a[2] + 1, <<"fx", "fy", "ft", "m">>, RReadSeq(SubSeq(a, 3, 6))))
         [] e = "streact" -> Fine(Put(world, a[1], a[2] + 1, <<"rx", "ry", "rt">>, RReadSeq(SubSeq(a, 3, 5))))
         [] e = "stmap" -> Fine(Put(world, a[1], a[2] + 1, <<"im">>, RReadSeq(SubSeq(a, 3, 3))))
         [] e = "stcopy" -> OnStCopy(world, a, r)
         [] e = "stget" -> OnStGet(world, a, r)
         [] e = "stdestroy" -> OnStDestroy(world, a, r)
         [] e = "stfree" -> Fine([world EXCEPT !.st = Without(@, a[1])])
         [] e \in {"stl2w", "stvel"} -> StUse(world, e, a, r)
         [] e = "stforce" -> OnStForce(world, a, r)
         [] e = "ostart" -> OnOstart(world, a, r)
         [] e = "ostep" -> OnOstep(world, a, r)
         [] e = "osolve" -> OnOsolve(world, a, r)
         [] e = "oend" -> OnOend(world, a)
         [] e = "mat" -> OnMat(world, a, r)
         [] e = "minit" -> OnMinit(world, a, r)
         [] e = "mresize" -> OnMresize(world, a, r)
         [] e = "mdestroy" -> OnMdestroy(world, a, r)
         [] e = "mfree" -> OnMfree(world, a)
         [] e = "mdata" -> OnMdata(world, a, r)
         [] e = "mcell" -> OnMcell(world, a, r)
         [] e = "maddc" -> OnMaddc(world, a, r)
         [] e = "mswap" -> OnMswap(world, a, r)
         [] e = "mcopy" -> OnMcopy(world, a, r)
         [] e = "mop" -> OnMop(world, a, r)
         [] e = "mval" -> OnMval(world, a, r)
         [] e = "sp" -> OnSp(world, a)
         [] e = "spinit" -> OnSpInit(world, a)
         [] e = "spresize" -> OnSpResize(world, a)
         [] e = "spdestroy" -> OnSpDestroy(world, a)
         [] e = "spfree" -> OnSpFree(world, a)
         [] e = "spblock" -> OnSpBlock(world, a, r)
         [] e = "spempty" -> OnSpEmpty(world, a, r)
         [] e = "spget" -> OnSpGet(world, a, r)
         [] e = "spop" -> OnSpOp(world, a, r)
         [] e \in {"solve", "lsolve"} -> OnSolve(world, e, a, r)

Init == w = NewWorld /\ l = 1 /\ bad = 0
Report(ev, c) == PrintT("REJECT|" \o ToString(l) \o "|" \o ev.e \o "|" \o c)
Next ==
    /\ l <= Len(Log)
    /\ LET ev == Log[l]
           out == TLCEval(Handle(w, ev))
       IN /\ \A c \in out.no : Report(ev, c)
          /\ w' = out.w
          /\ bad' = bad + Cardinality(out.no)
          /\ l' = l + 1
Spec == Init /\ [][Next]_<<w, l, bad>>

\* the whole trace was consumed
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
