---------------------------- MODULE BlockSparse ----------------------------
(***************************************************************************)
(* Block-sparse matrices: every row has a fixed number of entries, each    *)
(* empty or a block of `s' numbers at columns block*s+1 .. block*s+s.      *)
(*   [s, e, w, h, b, v]: b[i][k] = block number or -1, v[i][k] = numbers;  *)
(*   def = the <<i, k>> whose contents are specified.                      *)
(***************************************************************************)
EXTENDS Dense, Integers, FiniteSets

NoBlock == -1
NoSparse(s, e) == [s |-> s, e |-> e, w |-> 0, h |-> 0, b |-> <<>>, v |-> <<>>, def |-> {}]
SZeros(s) == TLCEval([c \in 1..s |-> RZero])
SInit(S, w, h) ==
    [S EXCEPT !.w = w, !.h = h,
              !.b = TLCEval([i \in 1..h |-> TLCEval([k \in 1..S.e |-> NoBlock])]),
              !.v = TLCEval([i \in 1..h |-> TLCEval([k \in 1..S.e |-> SZeros(S.s)])]),
              !.def = (1..h) \X (1..S.e)]
SResize(S, w, h) ==
    IF S.w = w /\ S.h = h THEN S ELSE [SInit(S, w, h) EXCEPT !.def = {}]
SPut(S, i, k, blk, d) == [S EXCEPT !.b[i][k] = blk, !.v[i][k] = d, !.def = @ \cup {<<i, k>>}]
SClear(S, i, k) == SPut(S, i, k, NoBlock, SZeros(S.s))

SDefined(S) == S.def = (1..S.h) \X (1..S.e)
SWellFormed(S) ==
    \A i \in 1..S.h : /\ \A k \in 1..S.e : S.b[i][k] = NoBlock \/ (S.b[i][k] + 1) * S.s <= S.w
                      /\ \A k, l \in 1..S.e : k # l /\ S.b[i][k] # NoBlock => S.b[i][k] # S.b[i][l]

\* the dense matrix it stands for
SDense(S) ==
    LET E(j, i) ==
          LET ks == {k \in 1..S.e : S.b[i][k] # NoBlock /\ S.b[i][k] * S.s < j /\ j <= (S.b[i][k] + 1) * S.s}
          IN IF ks = {} THEN RZero ELSE LET k == CHOOSE k \in ks : TRUE IN S.v[i][k][j - S.b[i][k] * S.s]
    IN Mat(S.w, S.h, E)

SScale(S, F(_, _)) ==        \* entry (row, column) multiplied by F(row, column)
    [S EXCEPT !.v = TLCEval([i \in 1..S.h |-> TLCEval([k \in 1..S.e |->
        IF S.b[i][k] = NoBlock THEN SZeros(S.s)
        ELSE TLCEval([c \in 1..S.s |-> RMul(F(i, S.b[i][k] * S.s + c), S.v[i][k][c])])])])]
SLeftScale(S, d) == LET F(i, j) == d.c[i][1] IN SScale(S, F)
SRightScale(S, d) == LET F(i, j) == d.c[j][1] IN SScale(S, F)
=============================================================================
