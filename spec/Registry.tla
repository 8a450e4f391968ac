------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Membership, for bodies, joints and generators alike.                    *)
(*                                                                         *)
(* place[x] is where object x is: "out" (in no system; it publishes -1),   *)
(* the name of the system it belongs to, or "stale": its system was reset, *)
(* which forgets members without touching them, so that what they publish  *)
(* is left open until they are added to a system again.                    *)
(*                                                                         *)
(* Which index a member gets is left open (any numbering 0..n-1).          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

Out == "out"
Stale == "stale"

Members(place, y) == {x \in DOMAIN place : place[x] = y}
CanAdd(place, x) == place[x] \in {Out, Stale}
DoAdd(place, x, y) == [place EXCEPT ![x] = y]
CanRemove(place, x, y) == place[x] = y
DoRemove(place, x) == [place EXCEPT ![x] = Out]
DoReset(place, y) == [x \in DOMAIN place |-> IF place[x] = y THEN Stale ELSE place[x]]

\* idx: published indices
MembersNumbered(place, y, idx) ==
    {idx[x] : x \in Members(place, y)} = 0..(Cardinality(Members(place, y)) - 1)
OutsidersUnnumbered(place, idx) == \A x \in DOMAIN place : place[x] = Out => idx[x] = -1
\* at: the bodies found by looking up 0..n-1
LookupAgrees(place, y, idx, at) ==
    /\ Len(at) = Cardinality(Members(place, y))
    /\ {at[i] : i \in 1..Len(at)} = Members(place, y)
    /\ \A i \in 1..Len(at) : idx[at[i]] = i - 1
=============================================================================
