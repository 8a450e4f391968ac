------------------------------ MODULE Profile ------------------------------
(***************************************************************************)
(* Profiling figures: means over the most recent Window calls.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FixReal, TLC

Push(hist, x, window) == IF Len(hist) >= window THEN Append(SubSeq(hist, 2, Len(hist)), x) ELSE Append(hist, x)
\* in real numbers: the sum of 600 calls of many seconds each is beyond 32-bit integers, and single precision
MeanAt(hist, i) ==
    IF hist = <<>> THEN RZero
    ELSE RDiv(RSum(TLCEval([k \in 1..Len(hist) |-> RInt(hist[k][i])])), RInt(Len(hist)))
=============================================================================
