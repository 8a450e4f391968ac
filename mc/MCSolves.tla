------------------------------- MODULE MCSolves -------------------------------
(***************************************************************************)
(* One linear solver asked one system after another.  What it keeps        *)
(* between calls are buffers, with the size of the last system they were   *)
(* used for; `left' is what they hold.  A call has to make every buffer    *)
(* anew before it reads it: stale entries never reach a result.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Tour

CONSTANTS Kind, Sizes, Emitting
VARIABLES size, left, clean, cmd

Guesses == {"none", "result", "same", "other"}
LimitKinds == IF Kind = "gs" THEN {"none", "loose", "tight"} ELSE {"none"}
\* what a call reads of its buffers: entry -> "call" (written by this call) or "stale"
Init == size = 0 /\ left = <<>> /\ clean = TRUE /\ cmd = ""
Start(h, guess) ==          \* the starting value of each unknown
    [i \in 1..h |-> IF guess = "none" \/ (guess = "other") THEN "zero"
                    ELSE IF guess = "result" THEN (IF size = h THEN "last" ELSE "zero") ELSE "given"]
Solve(h, guess, lim) ==
    /\ size' = h
    /\ left' = [i \in 1..h |-> "call"]
    /\ clean' = (\A i \in 1..h : Start(h, guess)[i] \in {"zero", "given", "last"})
    /\ cmd' = "solve " \o Kind \o " " \o ToString(h) \o " " \o guess \o " " \o lim
Next == \E h \in Sizes, g \in Guesses, lim \in LimitKinds : Solve(h, g, lim)
Size == size
Clean == clean /\ Len(left) = size
Emit == Emitting => Edge(size, cmd', size')
=============================================================================
