------------------------------ MODULE MCDynamics ------------------------------
(***************************************************************************)
(* The dynamics as an exact machine.  spec/Dynamics.tla and Advance.tla    *)
(* say what one evaluation or sub-step relates; here the relations are     *)
(* solved, exactly, for every scene of a lattice (two bodies, in the       *)
(* system or not, every pair of joints, loads), and what they give is      *)
(* looked at from outside:                                                 *)
(*   - the relations can always be met, and by one motion only: every      *)
(*     mutation of the motion or the reactions is rejected;                *)
(*   - momentum and energy behave;                                         *)
(*   - the motion turns and moves along when the scene is turned and moved.*)
(***************************************************************************)
EXTENDS Lattice, Params, LinearSystems, Advance, SequencesExt

CONSTANTS Emitting, Family, Steps
Bodies == {"a", "b", "c"}
VARIABLES c, K, A, n
vars == <<c, K, A, n>>

JointTexts ==
    {[kind |-> "pin", b |-> <<"a">>, p |-> <<"0.5", "-0.25", "1", "0.75", "4", "1">>],
     [kind |-> "rot", b |-> <<"a">>, p |-> <<"0.25", "10", "1">>],
     [kind |-> "line", b |-> <<"a">>, p |-> <<"0", "0.5", "1", "0", "0.6", "0.8", "2", "0.5">>],
     [kind |-> "fric", b |-> <<"a">>, p |-> <<"-1.5", "1.5", "0", "0">>],
     [kind |-> "pin", b |-> <<"b">>, p |-> <<"-1", "0", "-1", "1.5", "0", "0">>],
     [kind |-> "line", b |-> <<"b">>, p |-> <<"0.25", "0", "-1", "2", "1", "0", "0", "0">>],
     [kind |-> "crot", b |-> <<"b">>, p |-> <<"2", "-40", "1e6", "0", "0">>],
     [kind |-> "link", b |-> <<"a", "b">>, p |-> <<"1", "0", "-0.75", "0.5", "1e6", "3", "1">>],
     [kind |-> "link", b |-> <<"b", "a">>, p |-> <<"0", "0", "0.5", "0.5", "25", "0", "0">>],
     [kind |-> "roll", b |-> <<"a", "b">>, p |-> <<"0.25", "0", "0.8", "0.6", "0.5", "1", "1">>],
     [kind |-> "roll", b |-> <<"b", "a">>, p |-> <<"0", "-0.5", "1", "0", "1", "0", "0">>],
     [kind |-> "clutch", b |-> <<"a", "b">>, p |-> <<"-2", "3", "0", "0">>],
     [kind |-> "gear", b |-> <<"b", "a">>, p |-> <<"-1.5", "0", "1", "0.5">>],
     [kind |-> "gear", b |-> <<"a", "b">>, p |-> <<"2", "1", "0", "0">>]}
In(x) == {x.b[i] : i \in 1..Len(x.b)}
Gravity == [kind |-> "gravity", b |-> <<>>, p |-> <<"9.81">>]
Spring == [kind |-> "spring", b |-> <<"a", "b">>, p |-> <<"0.5", "0", "0", "-0.5", "1", "30", "0">>]
Damped == [kind |-> "spring", b |-> <<"b", "a">>, p |-> <<"0", "0.5", "0.25", "0", "0.5", "8", "2">>]
Motor == [kind |-> "motor", b |-> <<"a", "b">>, p |-> <<"5", "0.125", "6", "3">>]
Push == [kind |-> "static", b |-> <<"a">>, p |-> <<"3", "-4", "0.5", "1">>]
Pose1 == <<<<"0.75", "1", "0.25", "0.5", "-1", "2">>, <<"-1", "1.75", "-0.5", "-0.25", "0.5", "-1">>, <<"1.25", "-1", "1.5", "1", "0", "-3">>>>
Pose2 == <<<<"0.5", "0.75", "1", "-2", "0.5", "0">>, <<"2", "-0.5", "2.5", "0", "3", "4">>, <<"-1", "-1", "-2", "0.5", "0.25", "1">>>>
Combos == {[g |-> <<>>, k |-> Pose1], [g |-> <<Gravity, Spring>>, k |-> Pose2], [g |-> <<Push, Motor>>, k |-> Pose1]}
MoreCombos == {[g |-> g, k |-> k] : g \in {<<>>, <<Gravity>>, <<Gravity, Spring>>, <<Push, Motor>>, <<Damped, Motor, Gravity>>, <<Spring, Motor>>},
                                    k \in {Pose1, Pose2}}
Sets == {s \in SUBSET JointTexts : Cardinality(s) <= 2}
\* two joints between three bodies, each way round
Between == {<<p, q>> \in Bodies \X Bodies : p # q}
Wires == UNION {{[kind |-> "link", b |-> e, p |-> <<"1", "0", "-0.75", "0.5", "1e6", "3", "1">>],
                 [kind |-> "roll", b |-> e, p |-> <<"0.25", "0", "0.8", "0.6", "0.5", "1", "1">>],
                 [kind |-> "clutch", b |-> e, p |-> <<"-2", "3", "0", "0">>],
                 [kind |-> "gear", b |-> e, p |-> <<"-1.5", "0", "1", "0.5">>]} : e \in Between}
Wirings == {{u, v} : u, v \in Wires}
\* and two loads
Ties(j) == LET x == CHOOSE x \in j : TRUE
           IN <<[Spring EXCEPT !.b = <<x.b[2], CHOOSE b \in Bodies : b \notin In(x)>>], [Motor EXCEPT !.b = <<CHOOSE b \in Bodies : b \notin In(x), x.b[1]>>]>>
Here(x, in) ==      \* a joint that restricts positions has all its bodies in the system, any other at least one
    IF PositionJoint(x.kind) THEN In(x) \subseteq in ELSE In(x) \cap in # {}
HereLoad(g, in) == g.b = <<>> \/ IF g.kind = "static" THEN In(g) \subseteq in ELSE In(g) \cap in # {}

Mass == [b \in Bodies |-> CASE b = "a" -> <<RParse("2"), RParse("1.5")>> [] b = "b" -> <<RParse("0.5"), RParse("0.25")>>
                            [] b = "c" -> <<RParse("1.25"), RParse("0.75")>>]
Beta == RParse("0.1")
H == RParse("0.01")

Begin(x) == TLCEval([b \in Bodies |-> MotionOf(Values(x.k[CASE b = "a" -> 1 [] b = "b" -> 2 [] b = "c" -> 3]))])
SceneOf(x) ==
    LET seq == SetToSeq(x.j)
    IN [In |-> x.in, M |-> [b \in x.in |-> Mass[b]], beta |-> x.beta,
        js |-> TLCEval([i \in 1..Len(seq) |-> [kind |-> seq[i].kind, b |-> seq[i].b, p |-> JointParams(seq[i].kind, Values(seq[i].p))]]),
        gs |-> TLCEval([i \in 1..Len(x.g) |-> [kind |-> x.g[i].kind, b |-> x.g[i].b, p |-> LoadParams(x.g[i].kind, Values(x.g[i].p))]]),
        sv |-> IF x.sys = "nsv" THEN [kind |-> "gs", delta |-> RZero] ELSE [kind |-> "ge"]]

-----------------------------------------------------------------------------
(* The system of equations of a scene: rows numbered one after another.    *)
Numbered(rows) == LET f[j \in 0..Len(rows)] == IF j = 0 THEN <<>> ELSE f[j - 1] \o [i \in 1..Len(rows[j]) |-> <<j, i>>]
                  IN TLCEval(f[Len(rows)])
\* row id's coefficients on body b (a body may be on both ends)
On(sc, rows, id, b) == Sum3([s \in 1..2 |-> J3(rows[id[1]][id[2]], s)],
                            {s \in 1..Len(sc.js[id[1]].b) : sc.js[id[1]].b[s] = b})
System(sc, rows) ==
    LET ids == Numbered(rows)
        J == TLCEval([q \in 1..Len(ids) |-> TLCEval([b \in sc.In |-> On(sc, rows, ids[q], b)])])
        E(q, r) == RSumF(TLCEval([b \in sc.In |-> RDot(J[q][b], Mul3(InvMass(sc.M[b]), J[r][b]))]))
    IN TLCEval(Mat(Len(ids), Len(ids), E))
Posed(S) ==         \* far from singular
    \A i \in 1..S.h :
        LET x == SolveExact(S, TLCEval([j \in 1..S.h |-> IF i = j THEN ROne ELSE RZero]))
        IN x # <<>> /\ \A j \in 1..S.h : RLe(RAbs(x[j]), RInt(40))

Flat(ids, f) == TLCEval([q \in 1..Len(ids) |-> f[ids[q][1]][ids[q][2]]])
Acts(ids, rows) ==
    LET free == {q \in 1..Len(ids) : ~Limited(rows[ids[q][1]][ids[q][2]])}
    IN {a \in [1..Len(ids) -> {"free", "lo", "hi"}] : \A q \in free : a[q] = "free"}
\* all the multipliers that the boxed equations allow
Solutions(S, rhs, lo, hi, acts) ==
    {x \in {WithActive(S, rhs, lo, hi, act) : act \in acts} : (x # <<>> \/ S.h = 0) /\ BoxOk(S, rhs, lo, hi, x, RParse("1e-22"))}
ReactionsOf(sc, rows, ids, lam) ==
    LET at(j, i) == CHOOSE q \in 1..Len(ids) : ids[q] = <<j, i>>
    IN TLCEval([j \in 1..Len(rows) |-> TLCEval([i \in 1..Len(rows[j]) |->
          TLCEval([s \in 1..Len(sc.js[j].b) |-> Scale3(lam[at(j, i)], J3(rows[j][i], s))])])])

\* motion after a sub-step, from the accelerations acc
Moved(sc, k, h, acc) ==
    TLCEval([b \in DOMAIN k |-> IF b \in sc.In THEN Final("nsv", k[b], <<[k |-> k[b], a |-> acc[b]]>>, h) ELSE k[b]])

(* One sub-step of the impulse-based system from motion k, with a the last  *)
(* accelerations: [K, A, f, R, lam, unique].                               *)
Impulse(sc, k, a) ==
    LET rows == RowsOf(sc.js, k)
        ids == Numbered(rows)
        S == System(sc, rows)
        f == Loads(sc.gs, k, a, sc.M, sc.In)
        V1 == TLCEval([b \in sc.In |-> LAdd(Speed3(k[b]), Scale3(H, Mul3(InvMass(sc.M[b]), f[b])))])
        rhs == TLCEval([q \in 1..Len(ids) |-> RNeg(Flat(ids, ImpulseMiss(sc.js, sc.In, rows, V1, H, sc.beta))[q])])
        lo == TLCEval([q \in 1..Len(ids) |-> RMul(H, rows[ids[q][1]][ids[q][2]].lo)])
        hi == TLCEval([q \in 1..Len(ids) |-> RMul(H, rows[ids[q][1]][ids[q][2]].hi)])
        xs == TLCEval(Solutions(S, rhs, lo, hi, Acts(ids, rows)))
        free == SolveExact(S, rhs)
        Of(x) == LET lam == TLCEval([q \in 1..Len(ids) |-> RDiv(x[q], H)])
                     R == ReactionsOf(sc, rows, ids, lam)
                     acc == Acceleration(rows, Attached(sc.js, sc.In), sc.M, f, R)
                 IN [K |-> Moved(sc, k, H, acc), A |-> acc, f |-> f, R |-> R, lam |-> lam]
        first == CHOOSE x \in xs : TRUE
    IN [step |-> Of(first), free |-> Of(free),
        unique |-> xs # {} /\ \A x, y \in xs : \A q \in 1..Len(ids) : Within(x[q], y[q], RParse("1e-15"))]

(* One evaluation of the force-based system. *)
Evaluation(sc, k, a) ==
    LET rows == RowsOf(sc.js, k)
        ids == Numbered(rows)
        S == System(sc, rows)
        f == Loads(sc.gs, k, a, sc.M, sc.In)
        A0 == TLCEval([b \in sc.In |-> Mul3(InvMass(sc.M[b]), f[b])])
        rhs == TLCEval([q \in 1..Len(ids) |-> RNeg(Flat(ids, AccelMiss(sc.js, sc.In, rows, A0, SpeedOf(k)))[q])])
        lam == SolveExact(S, rhs)
        R == ReactionsOf(sc, rows, ids, lam)
        acc == Acceleration(rows, Attached(sc.js, sc.In), sc.M, f, R)
    IN [K |-> Moved(sc, k, H, acc), A |-> acc, f |-> f, R |-> R, lam |-> lam]
Step(sc, sys, k, a) == IF sys = "nsv" THEN Impulse(sc, k, a).step ELSE Evaluation(sc, k, a)
NoAcc(sc) == TLCEval([b \in sc.In |-> Zero3])
-----------------------------------------------------------------------------
Scene(sys, in, j, g, k, beta) ==
    [sys |-> sys, in |-> in, j |-> {y \in j : Here(y, in)}, g |-> SelectSeq(g, LAMBDA x : HereLoad(x, in)), k |-> k, beta |-> beta]
Candidates ==
    CASE Family = "pairs" -> {Scene(sys, in, j, m.g, m.k, Beta) :
             sys \in {"nsv", "gen"}, in \in {{"a", "b"}, {"a"}, {"b"}}, j \in Sets, m \in Combos}
      [] Family = "wide" -> {Scene(sys, in, j, m.g, m.k, beta) :
             sys \in {"nsv", "gen"}, in \in {{"a", "b"}, {"a"}, {"b"}}, j \in Sets, m \in MoreCombos, beta \in {Beta, RZero}}
      [] Family = "wiring" -> {Scene(IF Cardinality(in) = 3 THEN "nsv" ELSE "gen", in, j, Ties(j), Pose1, Beta) :
             in \in SUBSET Bodies \ {{}}, j \in Wirings}
      [] Family = "wired" -> {Scene(sys, in, j, Ties(j), k, Beta) :
             sys \in {"nsv", "gen"}, in \in SUBSET Bodies \ {{}}, j \in Wirings, k \in {Pose1, Pose2}}
Cases == {x \in Candidates : LET sc == SceneOf(x) IN Posed(System(sc, RowsOf(sc.js, Begin(x))))}
Init == /\ c \in Cases
        /\ K = Begin(c)
        /\ A = NoAcc(SceneOf(c))
        /\ n = 0
Next == /\ n < Steps
        /\ LET s == TLCEval(Step(SceneOf(c), c.sys, K, A)) IN K' = s.K /\ A' = s.A
        /\ n' = n + 1
        /\ UNCHANGED c
-----------------------------------------------------------------------------
Clauses(sc, sys, k, s) ==
    IF sys = "nsv" THEN NsvClauses(sc, H, k, s.K, s.f, s.R) ELSE GenericClauses(sc, k, s.A, s.f, s.R)

Bump(R, j, i, e, by) == [R EXCEPT ![j] = [@ EXCEPT ![i] = [@ EXCEPT ![e] = LAdd(@, by)]]]
Again(sc, sys, k, s, R) ==      \* the motion that other reactions give
    LET acc == Acceleration(RowsOf(sc.js, k), Attached(sc.js, sc.In), sc.M, s.f, R)
    IN [s EXCEPT !.R = R, !.A = acc, !.K = Moved(sc, k, H, acc)]
Small == <<RParse("0.01"), RParse("-0.01"), RParse("0.02")>>
Mutants(sc, sys, k, s) ==
    LET rows == RowsOf(sc.js, k)
        pick == {<<j, i, e>> \in (DOMAIN rows) \X {1, 2} \X {1, 2} : i <= Len(rows[j]) /\ e <= Len(sc.js[j].b)}
        inside == {x \in pick : sc.js[x[1]].b[x[3]] \in sc.In}
        Scaled(j, i) == [s.R EXCEPT ![j] = [@ EXCEPT ![i] = [e \in DOMAIN @ |-> Scale3(RParse("1.01"), @[e])]]]
        Extra(j, i) == [s.R EXCEPT ![j] = [@ EXCEPT ![i] = [e \in DOMAIN @ |-> LAdd(@[e], Scale3(RParse("0.05"), J3(rows[j][i], e)))]]]
    IN  \* one body's share of a reaction differs, and the motion with it
        {Again(sc, sys, k, s, Bump(s.R, x[1], x[2], x[3], Small)) : x \in inside}
        \* a multiplier differs, and the motion with it
        \cup {Again(sc, sys, k, s, Scaled(x[1], x[2])) : x \in {y \in inside : \E d \in 1..3 : ~Within(s.R[y[1]][y[2]][y[3]][d], RZero, RParse("0.01"))}}
        \cup {Again(sc, sys, k, s, Extra(x[1], x[2])) : x \in {y \in inside : \E d \in 1..3 : ~RIsZero(J3(rows[y[1]][y[2]], y[3])[d])}}
        \* published only
        \cup {[s EXCEPT !.R = Bump(s.R, x[1], x[2], x[3], Small)] : x \in inside}
        \* a body moves for no reason
        \cup {[s EXCEPT !.K[b].vx = RAdd(@, RParse("1e-4")), !.K[b].x = RAdd(@, RParse("1e-6")), !.A[b][1] = RAdd(@, RParse("1e-2"))] : b \in sc.In}
        \cup {[s EXCEPT !.K[b].om = RAdd(@, RParse("1e-4")), !.K[b].th = RAdd(@, RParse("1e-6")), !.A[b][3] = RAdd(@, RParse("1e-2"))] : b \in sc.In}
        \* a load acts twice
        \cup (IF sys = "nsv" THEN {} ELSE {[s EXCEPT !.f[b] = LAdd(@, Small)] : b \in sc.In})
        \* the body moves on with the speed it had
        \cup (IF sys = "nsv" THEN {[s EXCEPT !.K[b].x = RAdd(k[b].x, RMul(H, k[b].vx)), !.K[b].th = RAdd(k[b].th, RMul(H, k[b].om))] :
                                   b \in {b \in sc.In : ~Within(k[b].vx, s.K[b].vx, RParse("1e-4")) \/ ~Within(k[b].om, s.K[b].om, RParse("1e-4"))}} ELSE {})

Holds(name, sc, s) == Assert(Clauses(sc, c.sys, K, s) = {}, <<name, c, n, Clauses(sc, c.sys, K, s)>>)
Rejects(sc, s) == \A m \in Mutants(sc, c.sys, K, s) : Assert(Clauses(sc, c.sys, K, m) # {}, <<"a mutant passes", c, n, m>>)

(* The scene, turned by an angle and moved: t = <<angle, dx, dy>>.         *)
TurnBy(t, u) == Turn(t[1], u)
Place(t, u) == VAdd(TurnBy(t, u), <<t[2], t[3]>>)
TurnMotion(t, k) ==
    LET u == Place(t, <<k.x, k.y>>)
        v == TurnBy(t, <<k.vx, k.vy>>)
    IN [x |-> u[1], y |-> u[2], th |-> RAdd(k.th, t[1]), vx |-> v[1], vy |-> v[2], om |-> k.om]
TurnJoint(t, j) ==
    CASE j.kind = "pin" -> LET w == Place(t, <<j.p.wx, j.p.wy>>) IN [j EXCEPT !.p.wx = w[1], !.p.wy = w[2]]
      [] j.kind = "rot" -> [j EXCEPT !.p.th = RAdd(@, t[1])]
      [] j.kind = "line" -> LET w == Place(t, <<j.p.x0, j.p.y0>>)
                                d == TurnBy(t, <<j.p.dx, j.p.dy>>)
                            IN [j EXCEPT !.p.x0 = w[1], !.p.y0 = w[2], !.p.dx = d[1], !.p.dy = d[2]]
      [] OTHER -> j
TurnLoad(t, g) == IF g.kind = "static" THEN LET f == TurnBy(t, <<g.p.fx, g.p.fy>>) IN [g EXCEPT !.p.fx = f[1], !.p.fy = f[2]] ELSE g
TurnScene(t, sc) == [sc EXCEPT !.js = TLCEval([i \in DOMAIN @ |-> TurnJoint(t, @[i])]), !.gs = TLCEval([i \in DOMAIN @ |-> TurnLoad(t, @[i])])]
Turns == <<RParse("0.75"), RParse("3"), RParse("-2")>>
\* [C18] gravity has a direction and a limited link is limited along the world's axes
Turnable(sc) == /\ \A g \in DOMAIN sc.gs : sc.gs[g].kind # "gravity"
                /\ \A j \in DOMAIN sc.js : sc.js[j].kind = "link" => RLe(RParse("1e6"), sc.js[j].p.maxF)
Covariant(sc, s) ==
    LET t == Turns
        sc2 == TurnScene(t, sc)
        k2 == TLCEval([b \in DOMAIN K |-> TurnMotion(t, K[b])])
        a2 == TLCEval([b \in sc.In |-> LET u == TurnBy(t, <<A[b][1], A[b][2]>>) IN <<u[1], u[2], A[b][3]>>])
        s2 == Step(sc2, c.sys, k2, a2)
        want == TLCEval([b \in DOMAIN K |-> TurnMotion(t, s.K[b])])
    IN Turnable(sc) =>
          \A b \in DOMAIN K : \A d \in Comp : Assert(Within(s2.K[b][d], want[b][d], RParse("1e-15")), <<"not covariant", c, n, b, d>>)

\* what is checked at every sub-step of every scene
Checked ==
    LET sc == TLCEval(SceneOf(c))
        i == TLCEval(Impulse(sc, K, A))
        s == IF c.sys = "nsv" THEN i.step ELSE TLCEval(Evaluation(sc, K, A))
    IN /\ c.sys = "nsv" => Assert(i.unique, <<"not one solution", c, n>>)
       /\ Holds("exact", sc, s)
       /\ Rejects(sc, s)
       /\ Covariant(sc, s)
       \* limits overrun, where they matter
       /\ c.sys = "nsv" /\ (\E q \in DOMAIN i.free.lam : ~Within(i.free.lam[q], s.lam[q], RParse("1e-3"))) =>
             Assert(Clauses(sc, "nsv", K, i.free) # {}, <<"limits overrun", c, n>>)

RECURSIVE Slashed(_)
Slashed(s) == IF s = <<>> THEN "" ELSE "/" \o Head(s) \o Slashed(Tail(s))
B(s, i) == IF Len(s) >= i THEN s[i] ELSE "-"
Word(x) == " " \o x.kind \o "/" \o B(x.b, 1) \o "/" \o B(x.b, 2) \o Slashed(x.p)
RECURSIVE WordsOf(_)
WordsOf(s) == IF s = <<>> THEN "" ELSE Word(Head(s)) \o WordsOf(Tail(s))
Name(in) == (IF "a" \in in THEN "a" ELSE "") \o (IF "b" \in in THEN "b" ELSE "") \o (IF "c" \in in THEN "c" ELSE "")
Emit == Emitting /\ n = 0 =>
    Case("advance " \o c.sys \o " " \o Name(c.in) \o " J" \o WordsOf(SetToSeq(c.j)) \o " G" \o WordsOf(c.g)
         \o " K" \o Words(c.k[1]) \o Words(c.k[2]) \o Words(c.k[3]))
=============================================================================
