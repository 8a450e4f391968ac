------------------------------- MODULE MCMatrix -------------------------------
(***************************************************************************)
(* How a dense matrix is kept in storage (a buffer, a table of row         *)
(* pointers, capacities that only grow until the matrix is destroyed, row  *)
(* exchange by exchanging pointers) against Dense.tla.                     *)
(*                                                                         *)
(* S   the storage  [w, h, cw, ch, row, data]                              *)
(* A   the matrix Dense.tla has after the same history                     *)
(***************************************************************************)
EXTENDS Dense, Tour

CONSTANTS Widths, Heights, Emitting
VARIABLES S, A, cmd

Garbage == <<"?">>
Nothing == [w |-> 0, h |-> 0, cw |-> 0, ch |-> 0, row |-> <<>>, data |-> <<>>]
RowTable(w, h) == [i \in 1..h |-> (i - 1) * w]
Resized(w, h) ==
    IF w = S.w /\ h = S.h THEN S
    ELSE LET grow == w > S.cw \/ h > S.ch
         IN [w |-> w, h |-> h, cw |-> IF grow THEN w ELSE S.cw, ch |-> IF grow THEN h ELSE S.ch,
             row |-> RowTable(w, h),
             data |-> IF grow THEN [k \in 1..(w * h) |-> Garbage] ELSE S.data]
At(T, j, i) == T.data[T.row[i] + j]
Written(T, V(_, _)) ==          \* every entry written through the row pointers
    [T EXCEPT !.data = [k \in DOMAIN T.data |->
        LET c == {c \in (1..T.h) \X (1..T.w) : T.row[c[1]] + c[2] = k}
        IN IF c = {} THEN T.data[k] ELSE LET q == CHOOSE q \in c : TRUE IN V(q[2], q[1])]]
Value(w, j, i) == RInt((i - 1) * w + j)

Init == S = Nothing /\ A = NoMatrix /\ cmd = ""

Resize(w, h) ==
    /\ S' = Resized(w, h) /\ A' = MResize(A, w, h)
    /\ cmd' = "mresize " \o ToString(w) \o " " \o ToString(h)
Initialize(w, h) ==
    /\ S' = LET T == Resized(w, h) IN [T EXCEPT !.data = [k \in DOMAIN T.data |-> IF k <= w * h THEN RZero ELSE T.data[k]]]
    /\ A' = MConst(w, h, RZero)
    /\ cmd' = "minit " \o ToString(w) \o " " \o ToString(h)
Become(w, h) ==                 \* the target of an operation, or of a copy
    /\ S' = LET V(j, i) == Value(w, j, i) IN Written(Resized(w, h), V)
    /\ A' = LET E(j, i) == Value(w, j, i) IN Mat(w, h, E)
    /\ cmd' = "into " \o ToString(w) \o " " \o ToString(h)
Fill ==
    /\ S.w * S.h > 0
    /\ S' = LET V(j, i) == Value(S.w, j, i) IN Written(S, V)
    /\ A' = MData(A, [k \in 1..(A.w * A.h) |-> RInt(k)])
    /\ cmd' = "fill"
Exchange(i, k) ==
    /\ i < k /\ k <= S.h /\ Filled(A)
    /\ S' = [S EXCEPT !.row[i] = S.row[k], !.row[k] = S.row[i]]
    /\ A' = MSwap(A, i, k)
    /\ cmd' = "mswap " \o ToString(i - 1) \o " " \o ToString(k - 1)
Destroy == S' = Nothing /\ A' = NoMatrix /\ cmd' = "mdestroy"
Use == Filled(A) /\ cmd' = "use" /\ UNCHANGED <<S, A>>

Next ==
    \/ \E w \in Widths, h \in Heights : Resize(w, h) \/ Initialize(w, h) \/ Become(w, h)
    \/ \E i, k \in 1..S.h : Exchange(i, k)
    \/ Fill \/ Destroy \/ Use
-----------------------------------------------------------------------------
InBounds == \A i \in 1..S.h : S.row[i] >= 0 /\ S.row[i] + S.w <= Len(S.data)
Apart == \A i, k \in 1..S.h : i # k => S.row[i] + S.w <= S.row[k] \/ S.row[k] + S.w <= S.row[i]
Capacity == S.w <= S.cw /\ S.h <= S.ch /\ S.cw * S.ch = Len(S.data)
Stands == /\ S.w = A.w /\ S.h = A.h
          /\ Filled(A) => \A i \in 1..A.h : \A j \in 1..A.w : At(S, j, i) = A.c[i][j]

Full == <<S, A>>
Shape == <<S.w, S.h, S.cw, S.ch, S.row, Filled(A)>>
Emit == Emitting => Edge(Shape, cmd', Shape')
=============================================================================
