------------------------------- MODULE Dense -------------------------------
(***************************************************************************)
(* Dense matrices: [w, h, c] with c the sequence of h rows of w numbers.   *)
(* A matrix whose shape was just changed has unspecified contents until it *)
(* is filled: it is written [w, h, c |-> Unfilled].                        *)
(***************************************************************************)
EXTENDS FixReal, TLC

Unfilled == <<>>
Filled(A) == Len(A.c) = A.h
Mat(w, h, E(_, _)) ==           \* E(column, row), 1-based
    [w |-> w, h |-> h, c |-> TLCEval([i \in 1..h |-> TLCEval([j \in 1..w |-> E(j, i)])])]
NoMatrix == [w |-> 0, h |-> 0, c |-> <<>>]

MConst(w, h, v) == LET E(j, i) == v IN Mat(w, h, E)
MResize(A, w, h) ==
    IF A.w = w /\ A.h = h THEN A
    ELSE [w |-> w, h |-> h, c |-> IF w = 0 \/ h = 0 THEN TLCEval([i \in 1..h |-> <<>>]) ELSE Unfilled]
MData(A, d) == LET E(j, i) == d[(i - 1) * A.w + j] IN Mat(A.w, A.h, E)
MSetCell(A, j, i, v) == [A EXCEPT !.c[i][j] = v]
MAddCell(A, j, i, v) == [A EXCEPT !.c[i][j] = RAdd(@, v)]
MSwap(A, i1, i2) == [A EXCEPT !.c[i1] = A.c[i2], !.c[i2] = A.c[i1]]

MMul(A, B) == LET E(j, i) == RDot(A.c[i], TLCEval([k \in 1..A.w |-> B.c[k][j]])) IN Mat(B.w, A.h, E)
MTranspose(A) == LET E(j, i) == A.c[j][i] IN Mat(A.h, A.w, E)
MTMul(A, B) == MMul(MTranspose(A), B)
MCMul(A, B) == LET E(j, i) == RMul(A.c[i][j], B.c[i][j]) IN Mat(A.w, A.h, E)
MLeftScale(A, s) == LET E(j, i) == RMul(s.c[i][1], A.c[i][j]) IN Mat(A.w, A.h, E)
MRightScale(A, s) == LET E(j, i) == RMul(s.c[j][1], A.c[i][j]) IN Mat(A.w, A.h, E)
MScale(A, r) == LET E(j, i) == RMul(r, A.c[i][j]) IN Mat(A.w, A.h, E)
MSub(A, B) == LET E(j, i) == RSub(A.c[i][j], B.c[i][j]) IN Mat(A.w, A.h, E)
MAdd(A, B) == LET E(j, i) == RAdd(A.c[i][j], B.c[i][j]) IN Mat(A.w, A.h, E)
MNeg(A) == LET E(j, i) == RNeg(A.c[i][j]) IN Mat(A.w, A.h, E)
MMadd(A, B, r) == LET E(j, i) == RAdd(A.c[i][j], RMul(r, B.c[i][j])) IN Mat(A.w, A.h, E)
MPmadd(A, B, r) == LET E(j, i) == RAdd(RMul(r, A.c[i][j]), B.c[i][j]) IN Mat(A.w, A.h, E)
MDot(A, B) == RSum(TLCEval([i \in 1..A.h |-> RMul(A.c[i][1], B.c[i][1])]))
MMax(A) == RMaxF(TLCEval([i \in 1..A.h |-> RMaxF(TLCEval([j \in 1..A.w |-> RAbs(A.c[i][j])]))]))
MEquals(A, B, err) ==
    A.w = B.w /\ A.h = B.h /\ \A i \in 1..A.h : \A j \in 1..A.w : RLe(RAbs(RSub(A.c[i][j], B.c[i][j])), err)

\* operations that write a target, with their shape conditions
DenseResult(op, A, B, r) ==
    CASE op = "mul" -> MMul(A, B) [] op = "cmul" -> MCMul(A, B) [] op = "tmul" -> MTMul(A, B)
      [] op = "lscale" -> MLeftScale(A, B) [] op = "rscale" -> MRightScale(A, B) [] op = "scale" -> MScale(A, r)
      [] op = "sub" -> MSub(A, B) [] op = "add" -> MAdd(A, B) [] op = "neg" -> MNeg(A)
      [] op = "transpose" -> MTranspose(A) [] op = "madd" -> MMadd(A, B, r) [] op = "pmadd" -> MPmadd(A, B, r)
DenseShapes(op, A, B) ==
    CASE op = "mul" -> A.w = B.h [] op = "tmul" -> A.h = B.h
      [] op = "lscale" -> B.w = 1 /\ B.h = A.h [] op = "rscale" -> B.w = 1 /\ B.h = A.w
      [] op \in {"cmul", "sub", "add", "madd", "pmadd"} -> A.w = B.w /\ A.h = B.h
      [] OTHER -> TRUE
=============================================================================
