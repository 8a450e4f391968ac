------------------------------- MODULE MCStates -------------------------------
(***************************************************************************)
(* Two system states that are dimensioned, filled, copied into each other  *)
(* and destroyed.  A state is dimensioned again only when it is too small  *)
(* in one of its two dimensions (and then to exactly what is asked for).   *)
(*                                                                         *)
(* s[q] = [n, nc, bv, rv]: bv and rv are what the per-body and per-row     *)
(* quantities hold, as sequences of tokens; "?" is storage never written.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Tour

CONSTANTS Sizes, Emitting
VARIABLES s, ok, cmd

Q == {"qa", "qb"}
Nothing == [n |-> 0, nc |-> 0, bv |-> <<>>, rv |-> <<>>]
Init == s = [q \in Q |-> Nothing] /\ ok = TRUE /\ cmd = ""

Fresh(k) == [i \in 1..k |-> "?"]
Resized(t, n, nc) ==
    IF t.n >= n /\ t.nc >= nc THEN t ELSE [n |-> n, nc |-> nc, bv |-> Fresh(n), rv |-> Fresh(2 * nc)]
Over(new, old) == [i \in 1..Len(old) |-> IF i <= Len(new) THEN new[i] ELSE old[i]]
Copied(t, u) ==
    LET r == Resized(t, u.n, u.nc)
    IN IF u.n = 0 /\ u.nc = 0 THEN r ELSE [r EXCEPT !.bv = Over(u.bv, @), !.rv = Over(u.rv, @)]
Prefix(v, k) == SubSeq(v, 1, k)
Written(t) == \A i \in 1..Len(t.bv) : t.bv[i] # "?"

Resize(q, n, nc) ==
    /\ s' = [s EXCEPT ![q] = Resized(@, n, nc)]
    /\ ok' = (s'[q].n >= n /\ s'[q].nc >= nc)
    /\ cmd' = "stresize " \o q \o " " \o ToString(n) \o " " \o ToString(nc)
Fill(q) ==
    /\ s[q].n + s[q].nc > 0
    /\ s' = [s EXCEPT ![q].bv = [i \in 1..Len(@) |-> q], ![q].rv = [i \in 1..Len(@) |-> q]]
    /\ ok' = TRUE
    /\ cmd' = "stfill " \o q
Copy(q, u) ==
    /\ q # u /\ \A i \in 1..Len(s[u].bv) : s[u].bv[i] # "?"
    /\ \A i \in 1..Len(s[u].rv) : s[u].rv[i] # "?"
    /\ s' = [s EXCEPT ![q] = Copied(@, s[u])]
    \* the copy reproduces the source, whatever the target was
    /\ ok' = (/\ s'[q].n >= s[u].n /\ s'[q].nc >= s[u].nc
              /\ Prefix(s'[q].bv, s[u].n) = s[u].bv /\ Prefix(s'[q].rv, 2 * s[u].nc) = s[u].rv)
    /\ cmd' = "stcopy " \o q \o " " \o u
Destroy(q) == s' = [s EXCEPT ![q] = Nothing] /\ ok' = TRUE /\ cmd' = "stdestroy " \o q
Look(q) == s[q].n + s[q].nc > 0 /\ UNCHANGED <<s, ok>> /\ cmd' = "stget " \o q

Next ==
    \E q \in Q :
        \/ \E n, nc \in Sizes : Resize(q, n, nc)
        \/ Fill(q) \/ Destroy(q) \/ Look(q)
        \/ \E u \in Q : Copy(q, u)
-----------------------------------------------------------------------------
Room == \A q \in Q : Len(s[q].bv) = s[q].n /\ Len(s[q].rv) = 2 * s[q].nc
Holds == ok

\* for tours: which states are written does not depend on what they hold
View == [q \in Q |-> <<s[q].n, s[q].nc, "?" \in {s[q].bv[i] : i \in 1..Len(s[q].bv)},
                       "?" \in {s[q].rv[i] : i \in 1..Len(s[q].rv)}>>]
Emit == Emitting => Edge(View, cmd', View')
Full == <<s, ok>>
=============================================================================
