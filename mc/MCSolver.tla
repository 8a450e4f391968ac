------------------------------- MODULE MCSolver -------------------------------
(***************************************************************************)
(* Projected Gauss-Seidel, sweep by sweep, on every system of a lattice:   *)
(* the objective never grows, the iteration reaches the only solution of   *)
(* the boxed problem, and where its stopping rule holds, what is left of   *)
(* each equation is within the bound that spec/Dynamics.tla and Trace.tla  *)
(* allow for.                                                              *)
(***************************************************************************)
EXTENDS Lattice, LinearSystems

CONSTANTS Emitting, Deltas
VARIABLES c, x, n, done
vars == <<c, x, n, done>>

RowTexts == {<<"1", "0", "0">>, <<"1", "1", "0">>, <<"2", "0", "-1">>, <<"1", "-1", "1">>, <<"0", "0", "0.5">>}
Weights == {<<"1", "1", "1">>, <<"0.5", "2", "4">>}
Bs == {<<"0", "0">>, <<"1", "-2">>, <<"0.001", "3">>}
\* limits: of both unknowns
Boxes == {<<"-1e9", "1e9", "-1e9", "1e9">>, <<"-1", "1", "0", "0.5">>, <<"-0.25", "0", "-1e9", "1e9">>, <<"0", "0", "0.25", "2">>}
Guesses == {<<"0", "0">>, <<"5", "-3">>}
DeltaTexts == {"0.5", "1e-3"}

V(s) == Values(s)
Single == {[j |-> <<a>>, w |-> w, b |-> <<b[1]>>, box |-> <<l[1], l[2]>>, g |-> <<g[1]>>, d |-> d] :
           a \in RowTexts, w \in Weights, b \in Bs, l \in Boxes, g \in Guesses, d \in Deltas}
Double == {[j |-> <<p[1], p[2]>>, w |-> w, b |-> b, box |-> l, g |-> g, d |-> d] :
           p \in {q \in RowTexts \X RowTexts : q[1] # q[2]}, w \in Weights, b \in Bs, l \in Boxes, g \in Guesses, d \in Deltas}
H == Len(c.j)
J == [w |-> 3, h |-> H, c |-> TLCEval([i \in 1..H |-> V(c.j[i])])]
W == [w |-> 1, h |-> 3, c |-> TLCEval([i \in 1..3 |-> <<V(c.w)[i]>>])]
A == TLCEval(Gram(J, W))
B == V(c.b)
Lo(i) == RParse(c.box[2 * i - 1])
Hi(i) == RParse(c.box[2 * i])
D == RParse(c.d)
Floor == RParse("1e-3")

Init == /\ c \in Single \cup Double
        /\ x = V(c.g) /\ n = 0 /\ done = FALSE
RECURSIVE Sweep(_, _)
Sweep(y, i) == IF i > H THEN y
               ELSE LET r == RSub(B[i], RSub(RDot(A.c[i], y), RMul(A.c[i][i], y[i])))
                    IN Sweep([y EXCEPT ![i] = RClamp(RDiv(r, A.c[i][i]), Lo(i), Hi(i))], i + 1)
Change(y, z) == RMaxF(TLCEval([i \in 1..H |-> RDiv(RAbs(RSub(z[i], y[i])), RMax(Floor, RAbs(y[i])))]))
Next == /\ ~done
        /\ x' = TLCEval(Sweep(x, 1))
        /\ n' = n + 1
        /\ done' = RLt(Change(x, x'), D)
        /\ UNCHANGED c
-----------------------------------------------------------------------------
\* half the curvature minus the load: what the boxed problem minimises
Objective(y) == RSub(RMul(RHalf, RDot(y, TLCEval([i \in 1..H |-> RDot(A.c[i], y)]))), RDot(B, y))
Descends == n > 0 => Assert(RLe(Objective(x'), RAdd(Objective(x), RParse("1e-25"))), "the objective grew")
Feasible == n > 0 => \A i \in 1..H : RLe(Lo(i), x[i]) /\ RLe(x[i], Hi(i))
Ends == n < 400

LoV == TLCEval([i \in 1..H |-> Lo(i)])
HiV == TLCEval([i \in 1..H |-> Hi(i)])
Solutions == BoxSolutions(A, B, LoV, HiV, RParse("1e-20"))
OneSolution == n = 0 =>
    LET S == Solutions
    IN S # {} /\ \A y, z \in S : \A i \in 1..H : Within(y[i], z[i], RParse("1e-15"))
Reach(v) == RMax(RDiv(RAbs(v), RSub(ROne, D)), Floor)
Slack(i) == RMul(D, RSum(TLCEval([k \in 1..H |-> RMul(RAbs(A.c[i][k]), Reach(x[k]))])))
\* [C12, C08] stopped: each equation holds within the slack, or its unknown is at the bound that prevents it
Stopped == done =>
    LET r == Residual(A, x, B)
        small == RParse("1e-25")
    IN \A i \in 1..H :
         /\ RLe(r[i], RAdd(Slack(i), small)) \/ x[i] = Lo(i)
         /\ RLe(RNeg(r[i]), RAdd(Slack(i), small)) \/ x[i] = Hi(i)
\* where nothing is at a bound, the unknowns are as far off as the slack allows, no further
Free == \A i \in 1..H : RLt(Lo(i), x[i]) /\ RLt(x[i], Hi(i))
Near == done /\ Free =>
    LET y == SolveExact(A, B)
        err == TLCEval([i \in 1..H |-> RSub(x[i], y[i])])
        Ae == TLCEval([i \in 1..H |-> RDot(A.c[i], err)])
    IN \A i \in 1..H : RLe(RAbs(Ae[i]), RAdd(Slack(i), RParse("1e-20")))

\* exact conjugate gradient needs at most H directions
RECURSIVE Cg(_, _, _, _)
Cg(y, r, p, k) ==
    LET rr == RDot(r, r)
    IN IF k = 0 \/ RLe(rr, RParse("1e-26")) THEN y
       ELSE LET Ap == TLCEval([i \in 1..H |-> RDot(A.c[i], p)])
                al == RDiv(rr, RDot(p, Ap))
                y2 == TLCEval([i \in 1..H |-> RAdd(y[i], RMul(al, p[i]))])
                r2 == TLCEval([i \in 1..H |-> RSub(r[i], RMul(al, Ap[i]))])
                be == RDiv(RDot(r2, r2), rr)
            IN Cg(y2, r2, TLCEval([i \in 1..H |-> RAdd(r2[i], RMul(be, p[i]))]), k - 1)
Directions == n = 0 =>
    LET g == V(c.g)
        r0 == TLCEval([i \in 1..H |-> RSub(B[i], RDot(A.c[i], g))])
        y == Cg(g, r0, r0, H)
        z == SolveExact(A, B)
    IN \A i \in 1..H : Within(y[i], z[i], RParse("1e-15"))
Emit == Emitting /\ n = 0 /\ c.d = "0.5" => Case("system" \o Words(c.w) \o Words(c.b) \o Words(c.g) \o Words(c.box)
                                   \o Words(c.j[1]) \o (IF H = 2 THEN Words(c.j[2]) ELSE ""))
=============================================================================
