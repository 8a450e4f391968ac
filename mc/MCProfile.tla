------------------------------ MODULE MCProfile ------------------------------
(***************************************************************************)
(* A ring of samples against the mean over the most recent calls.          *)
(* One transition stands for a batch of calls of the same cost: with a     *)
(* window of three batches of 200 calls, the real window of 600.           *)
(***************************************************************************)
EXTENDS Profile, FiniteSets, Tour

CONSTANTS Window, Costs, Emitting
VARIABLES ring, at, hist, calls, cmd
vars == <<ring, at, hist, calls, cmd>>
Unused == -1

Init == ring = [i \in 1..Window |-> Unused] /\ at = 1 /\ hist = <<>> /\ calls = 0 /\ cmd = ""
Batch(x) ==
    /\ ring' = [ring EXCEPT ![at] = x]
    /\ at' = 1 + (at % Window)
    /\ hist' = Push(hist, <<x>>, Window)
    /\ calls' = IF calls < Window THEN calls + 1 ELSE calls
    /\ cmd' = "batch " \o ToString(x)
\* members come and go; what was measured stays
Reset == /\ cmd' = "reset" /\ UNCHANGED <<ring, at, hist, calls>>
Next == (\E x \in Costs : Batch(x)) \/ Reset
-----------------------------------------------------------------------------
Used == {i \in 1..Window : ring[i] # Unused}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN ring[i] + Total(S \ {i})
RingMean == IF Used = {} THEN RZero ELSE RDiv(RInt(Total(Used)), RInt(Cardinality(Used)))
\* [C20] the ring holds the most recent calls: their mean is the window's
Mean == RingMean = MeanAt(hist, 1)
Counted == Cardinality(Used) = calls /\ Len(hist) = calls
Oldest == calls = Window => ring[at] = hist[1][1]
Latest == calls > 0 => ring[1 + ((at + Window - 2) % Window)] = hist[calls][1]
Shown == <<ring, at, calls>>
Emit == Emitting => Edge(Shown, cmd', Shown')
=============================================================================
