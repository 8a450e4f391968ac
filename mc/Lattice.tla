------------------------------- MODULE Lattice -------------------------------
(***************************************************************************)
(* Models over a finite set of cases instead of histories: every case is   *)
(* an initial state, every law of the specification an invariant, and the  *)
(* cases are also handed to the driver (as a tour through one state).      *)
(* Numbers of a case are texts, so that they can be read by both.          *)
(***************************************************************************)
EXTENDS Tour, FixReal

RECURSIVE Words(_)
Words(s) == IF s = <<>> THEN "" ELSE " " \o Head(s) \o Words(Tail(s))
Values(s) == TLCEval([i \in 1..Len(s) |-> RParse(s[i])])
Case(cmd) == Edge("o", cmd, "o")

Within(x, y, tol) == RLe(RAbs(RSub(x, y)), tol)
Closely(x, y) == RNearS(x, y, RParse("1e-28"))          \* rounding of the specification's own arithmetic
=============================================================================
