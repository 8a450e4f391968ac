------------------------------- MODULE MCLimits -------------------------------
(***************************************************************************)
(* A brake on body a and a clutch between a and b, both with limits, as a  *)
(* box-constrained problem of two unknowns (inertias, time step and unit   *)
(* of speed are one): every combination of speeds and limits, after every  *)
(* regime of the step before.                                              *)
(*                                                                         *)
(*   rows  brake: om_a -> 0,  clutch: om_b - om_a -> 0                     *)
(*   A = [1 -1; -1 2],  b = -(v_a, v_b - v_a)                              *)
(***************************************************************************)
EXTENDS LinearSystems, Tour

CONSTANTS Speeds, Caps, Emitting
VARIABLES regime, sols, sweep, cmd
SpeedSet == {-2, 0, 1}

A == [w |-> 2, h |-> 2, c |-> <<<<ROne, RInt(-1)>>, <<RInt(-1), RInt(2)>>>>]
B(va, vb) == <<RInt(-va), RInt(va - vb)>>
Lo(la, lc) == <<RInt(-la), RInt(-lc)>>
Hi(la, lc) == <<RInt(la), RInt(lc)>>
Kind(x, lo, hi) == IF lo = hi THEN "shut" ELSE IF x = lo THEN "lo" ELSE IF x = hi THEN "hi" ELSE "free"
\* projected Gauss-Seidel from zero
RECURSIVE Sweeps(_, _, _, _, _)
Sweeps(b, lo, hi, x, n) ==
    IF n = 0 THEN x
    ELSE LET x1 == RClamp(RSub(b[1], RMul(A.c[1][2], x[2])), lo[1], hi[1])
             x2 == RClamp(RDiv(RSub(b[2], RMul(A.c[2][1], x1)), RInt(2)), lo[2], hi[2])
         IN Sweeps(b, lo, hi, <<x1, x2>>, n - 1)

None == <<"none", "none">>
Init == regime = None /\ sols = {} /\ sweep = <<>> /\ cmd = ""
Demand(va, vb, la, lc) ==
    LET b == B(va, vb)
        lo == Lo(la, lc)
        hi == Hi(la, lc)
    IN /\ sols' = TLCEval(BoxSolutions(A, b, lo, hi, RParse("1e-20")))
       /\ sweep' = TLCEval(Sweeps(b, lo, hi, <<RZero, RZero>>, 70))
       /\ regime' = LET x == CHOOSE x \in sols' : TRUE IN <<Kind(x[1], lo[1], hi[1]), Kind(x[2], lo[2], hi[2])>>
       /\ cmd' = "demand " \o ToString(va) \o " " \o ToString(vb) \o " " \o ToString(la) \o " " \o ToString(lc)
Next == \E va, vb \in Speeds, la, lc \in Caps : Demand(va, vb, la, lc)
-----------------------------------------------------------------------------
Close(x, y) == RLe(RAbs(RSub(x, y)), RParse("1e-15"))
\* the boxed problem has exactly one solution, and the projected iteration reaches it (at every transition)
OneSolution == Assert(sols' # {} /\ \A x, y \in sols' : Close(x[1], y[1]) /\ Close(x[2], y[2]), <<"not one solution", cmd'>>)
Reached == Assert(\A x \in sols' : Close(sweep'[1], x[1]) /\ Close(sweep'[2], x[2]), <<"not reached", cmd'>>)
Checked == OneSolution /\ Reached
Regime == regime
Emit == Emitting => Edge(regime, cmd', regime')
=============================================================================
