------------------------------ MODULE MCRegistry ------------------------------
(***************************************************************************)
(* The list a system keeps its members in (append, overwrite the removed   *)
(* one by the last, forget all on reset), with the index every member      *)
(* publishes, against the membership of Registry.tla.                      *)
(*                                                                         *)
(* bl, jl, gl   lists of the systems' bodies, joints, generators           *)
(* idx          published indices                                          *)
(* place        what Registry.tla says about the same history              *)
(***************************************************************************)
EXTENDS Registry, Tour

CONSTANTS Bodies, Joints, Gens, Systems, Ends, Resets, Emitting
VARIABLES bl, jl, gl, idx, place, cmd

Things == Bodies \cup Joints \cup Gens
State == <<bl, jl, gl, idx, place>>

EndsNone == <<>> @@ [x \in {} |-> <<>>]
EndsTwo == [p1 |-> <<"b1">>, p2 |-> <<"b2">>, k12 |-> <<"b1", "b2">>, f2 |-> <<"b2">>, g1 |-> <<"b1">>, s12 |-> <<"b1", "b2">>]
Loose == {"k12", "g1", "s12"}           \* may hold on to a body that is in no system; a joint not to such bodies only

Empty == [y \in Systems |-> <<>>]
Init ==
    /\ bl = Empty /\ jl = Empty /\ gl = Empty
    /\ idx = [x \in Things |-> -1]
    /\ place = [x \in Things |-> Out]
    /\ cmd = ""

\* the three lists work alike: L is the list before, L' after
Added(L, y, x) == [L EXCEPT ![y] = Append(@, x)]
AddedIndex(L, y, x) == [idx EXCEPT ![x] = Len(L[y])]
Removed(L, y, x) ==
    LET s == L[y]
        n == Len(s)
        over == [s EXCEPT ![idx[x] + 1] = s[n]]
    IN [L EXCEPT ![y] = SubSeq(over, 1, n - 1)]
RemovedIndex(L, y, x) ==
    LET s == L[y]
        moved == [idx EXCEPT ![s[Len(s)]] = idx[x]]
    IN [moved EXCEPT ![x] = -1]

Say(w, y, x) == cmd' = w \o " " \o y \o " " \o x
AddTo(L, w, y, x) ==
    /\ CanAdd(place, x)
    /\ place' = DoAdd(place, x, y)
    /\ idx' = AddedIndex(L, y, x)
    /\ Say(w, y, x)
RemoveFrom(L, w, y, x) ==
    /\ CanRemove(place, x, y)
    /\ place' = DoRemove(place, x)
    /\ idx' = RemovedIndex(L, y, x)
    /\ Say(w, y, x)

AddBody(y, x) == AddTo(bl, "addb", y, x) /\ bl' = Added(bl, y, x) /\ UNCHANGED <<jl, gl>>
AddJoint(y, x) == AddTo(jl, "addj", y, x) /\ jl' = Added(jl, y, x) /\ UNCHANGED <<bl, gl>>
AddGen(y, x) == AddTo(gl, "addg", y, x) /\ gl' = Added(gl, y, x) /\ UNCHANGED <<bl, jl>>
RemoveBody(y, x) == RemoveFrom(bl, "remb", y, x) /\ bl' = Removed(bl, y, x) /\ UNCHANGED <<jl, gl>>
RemoveJoint(y, x) == RemoveFrom(jl, "remj", y, x) /\ jl' = Removed(jl, y, x) /\ UNCHANGED <<bl, gl>>
RemoveGen(y, x) == RemoveFrom(gl, "remg", y, x) /\ gl' = Removed(gl, y, x) /\ UNCHANGED <<bl, jl>>

Reset(y) ==
    /\ Resets
    /\ bl[y] # <<>> \/ jl[y] # <<>> \/ gl[y] # <<>>
    /\ bl' = [bl EXCEPT ![y] = <<>>] /\ jl' = [jl EXCEPT ![y] = <<>>] /\ gl' = [gl EXCEPT ![y] = <<>>]
    /\ place' = DoReset(place, y)
    /\ UNCHANGED idx
    /\ cmd' = "reset " \o y

\* a step is asked for when everything the members hold on to is in the system, or nowhere
Steppable(y) ==
    \A x \in Members(place, y) : x \in DOMAIN Ends =>
        /\ \A i \in 1..Len(Ends[x]) : place[Ends[x][i]] = y \/ (x \in Loose /\ place[Ends[x][i]] = Out)
        /\ x \in Joints => \E i \in 1..Len(Ends[x]) : place[Ends[x][i]] = y
Process(y) ==
    /\ Steppable(y)
    /\ cmd' = "process " \o y
    /\ UNCHANGED <<bl, jl, gl, idx, place>>

Next ==
    \E y \in Systems :
        \/ Reset(y) \/ Process(y)
        \/ \E x \in Bodies : AddBody(y, x) \/ RemoveBody(y, x)
        \/ \E x \in Joints : AddJoint(y, x) \/ RemoveJoint(y, x)
        \/ \E x \in Gens : AddGen(y, x) \/ RemoveGen(y, x)
Spec == Init /\ [][Next]_<<bl, jl, gl, idx, place, cmd>>

-----------------------------------------------------------------------------
Of(S) == [x \in S |-> place[x]]
Exactly(L, S) ==        \* each list holds exactly the members, each once, at their index
    \A y \in Systems :
        /\ LookupAgrees(Of(S), y, idx, L[y])
        /\ MembersNumbered(Of(S), y, idx)
Membership == Exactly(bl, Bodies) /\ Exactly(jl, Joints) /\ Exactly(gl, Gens)
Outsiders == OutsidersUnnumbered(place, idx)
InOnePlace ==
    \A x \in Things : Cardinality({y \in Systems : \E i \in 1..Len((bl[y] \o jl[y]) \o gl[y]) : ((bl[y] \o jl[y]) \o gl[y])[i] = x}) <= 1

Emit == Emitting => Edge(State, cmd', State')
=============================================================================
