------------------------------- MODULE MCSparse -------------------------------
(***************************************************************************)
(* How a block-sparse matrix is kept in storage (a table of block numbers  *)
(* and the numbers of the blocks, capacity by rows) against                *)
(* BlockSparse.tla, with blocks of 3 and 2 entries in a row.               *)
(*                                                                         *)
(* S   [w, h, cap, blk, val]     T   the matrix of BlockSparse.tla         *)
(***************************************************************************)
EXTENDS BlockSparse, Tour

CONSTANTS Blocks, Heights, Emitting
VARIABLES S, T, cmd

E == 2
Garbage == "?"
Nothing == [w |-> 0, h |-> 0, cap |-> 0, blk |-> <<>>, val |-> <<>>]
Resized(w, h) ==
    IF w = S.w /\ h = S.h THEN S
    ELSE IF h > S.cap THEN [w |-> w, h |-> h, cap |-> h, blk |-> [k \in 1..(h * E) |-> Garbage], val |-> [k \in 1..(h * E) |-> Garbage]]
    ELSE [S EXCEPT !.w = w, !.h = h]
Slot(i, k) == (i - 1) * E + k
Tag(i, k, b) == [c \in 1..3 |-> RInt(100 * b + 10 * i + 3 * k + c)]

Init == S = Nothing /\ T = NoSparse(3, E) /\ cmd = ""
Initialize(b, h) ==
    /\ S' = LET Q == Resized(3 * b, h)
            IN [Q EXCEPT !.blk = [x \in DOMAIN Q.blk |-> IF x <= h * E THEN NoBlock ELSE Q.blk[x]],
                         !.val = [x \in DOMAIN Q.val |-> IF x <= h * E THEN SZeros(3) ELSE Q.val[x]]]
    /\ T' = SInit(T, 3 * b, h)
    /\ cmd' = "spinit " \o ToString(3 * b) \o " " \o ToString(h)
Resize(b, h) ==
    /\ S' = Resized(3 * b, h) /\ T' = SResize(T, 3 * b, h)
    /\ cmd' = "spresize " \o ToString(3 * b) \o " " \o ToString(h)
Free(i, b) == \A k \in 1..E : <<i, k>> \in T.def => T.b[i][k] # b
PutBlock(i, k, b) ==
    /\ 3 * (b + 1) <= S.w
    /\ \A l \in 1..E : l # k /\ <<i, l>> \in T.def => T.b[i][l] # b
    /\ S' = [S EXCEPT !.blk[Slot(i, k)] = b, !.val[Slot(i, k)] = Tag(i, k, b)]
    /\ T' = SPut(T, i, k, b, Tag(i, k, b))
    /\ cmd' = "spblock " \o ToString(i - 1) \o " " \o ToString(k - 1) \o " " \o ToString(b)
Clear(i, k) ==
    /\ S' = [S EXCEPT !.blk[Slot(i, k)] = NoBlock, !.val[Slot(i, k)] = SZeros(3)]
    /\ T' = SClear(T, i, k)
    /\ cmd' = "spempty " \o ToString(i - 1) \o " " \o ToString(k - 1)
Destroy == S' = Nothing /\ T' = NoSparse(3, E) /\ cmd' = "spdestroy"
Use == SDefined(T) /\ cmd' = "use" /\ UNCHANGED <<S, T>>

Next ==
    \/ \E b \in Blocks, h \in Heights : Initialize(b, h) \/ Resize(b, h)
    \/ \E i \in 1..S.h, k \in 1..E : Clear(i, k) \/ \E b \in Blocks : PutBlock(i, k, b)
    \/ Destroy \/ Use
-----------------------------------------------------------------------------
Capacity == S.h <= S.cap /\ Len(S.blk) = S.cap * E /\ Len(S.val) = S.cap * E
Stands ==
    /\ S.w = T.w /\ S.h = T.h
    /\ \A i \in 1..T.h : \A k \in 1..E : <<i, k>> \in T.def =>
         S.blk[Slot(i, k)] = T.b[i][k] /\ S.val[Slot(i, k)] = T.v[i][k]
WellFormed == SDefined(T) => SWellFormed(T)

\* the products, as they are computed block by block, are the dense products
DenseOf == SDense(T)
Col(x) == [w |-> 1, h |-> Len(x), c |-> [i \in 1..Len(x) |-> <<x[i]>>]]
X == Col([i \in 1..T.w |-> RInt(2 * i - 3)])
Y == Col([i \in 1..T.h |-> RInt(7 - 3 * i)])
ByBlocks ==
    LET D == DenseOf
        D2 == DenseOf
        MulX == [i \in 1..T.h |-> RSum([k \in 1..E |->
                    IF T.b[i][k] = NoBlock THEN RZero
                    ELSE RSum([c \in 1..3 |-> RMul(T.v[i][k][c], X.c[T.b[i][k] * 3 + c][1])])])]
        TMulY == [j \in 1..T.w |-> RSum([i \in 1..T.h |-> RSum([k \in 1..E |->
                    IF T.b[i][k] # NoBlock /\ T.b[i][k] * 3 < j /\ j <= T.b[i][k] * 3 + 3
                    THEN RMul(T.v[i][k][j - T.b[i][k] * 3], Y.c[i][1]) ELSE RZero])])]
        Gram == [i \in 1..T.h |-> [j \in 1..T.h |-> RSum([k \in 1..E |-> RSum([l \in 1..E |->
                    IF T.b[i][k] # NoBlock /\ T.b[i][k] = T.b[j][l]
                    THEN RSum([c \in 1..3 |-> RMul(T.v[i][k][c], T.v[j][l][c])]) ELSE RZero])])]]
    IN /\ \A i \in 1..T.h : MulX[i] = MMul(D, X).c[i][1]
       /\ \A j \in 1..T.w : TMulY[j] = MTMul(D, Y).c[j][1]
       /\ \A i, j \in 1..T.h : Gram[i][j] = MMul(D, MTranspose(D2)).c[i][j]
       /\ \A i \in 1..T.h : \A j \in 1..T.w :
            /\ SDense(SLeftScale(T, Y)).c[i][j] = MLeftScale(D, Y).c[i][j]
            /\ SDense(SRightScale(T, X)).c[i][j] = MRightScale(D, X).c[i][j]
Products == SDefined(T) => ByBlocks

Known == [i \in 1..T.h |-> [k \in 1..E |-> IF <<i, k>> \in T.def THEN T.b[i][k] ELSE -2]]
Full == <<S, T>>
Shape == <<S.w, S.h, S.cap, Known>>
Emit == Emitting => Edge(Shape, cmd', Shape')
=============================================================================
