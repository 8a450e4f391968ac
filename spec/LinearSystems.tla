---------------------------- MODULE LinearSystems ----------------------------
(***************************************************************************)
(* Symmetric systems A x = b with A = J W transpose(J), exactly, and the   *)
(* box-constrained variant: x within [lo, hi], and a row's equation may be *)
(* missed only where x is at a bound and only in the direction the bound   *)
(* prevents.                                                               *)
(***************************************************************************)
EXTENDS Dense, FiniteSets, Integers

Gram(J, W) ==                    \* J dense h x w, W one column of w weights
    LET JW == MRightScale(J, W)
    IN MMul(JW, MTranspose(J))

Residual(A, x, b) == TLCEval([i \in 1..A.h |-> RSub(RDot(A.c[i], x), b[i])])
RowSize(A, x, b, i) == RAdd(RAbsDot(A.c[i], x), RAbs(b[i]))

\* Gauss-Jordan with a largest pivot; <<>> when singular
RECURSIVE Reduce(_, _, _)
Reduce(T, n, k) ==
    IF k > n THEN T
    ELSE LET p == CHOOSE i \in k..n : \A i2 \in k..n : RLe(RAbs(T[i2][k]), RAbs(T[i][k]))
         IN IF RIsZero(T[p][k]) THEN <<>>
            ELSE LET S == TLCEval([T EXCEPT ![k] = T[p], ![p] = T[k]])
                     row == TLCEval([j \in 1..(n + 1) |-> RDiv(S[k][j], S[k][k])])
                     U == TLCEval([i \in 1..n |-> IF i = k THEN row
                            ELSE TLCEval([j \in 1..(n + 1) |-> RSub(S[i][j], RMul(S[i][k], row[j]))])])
                 IN Reduce(U, n, k + 1)
SolveExact(A, b) ==
    LET n == A.h
        T == Reduce(TLCEval([i \in 1..n |-> TLCEval([j \in 1..(n + 1) |-> IF j <= n THEN A.c[i][j] ELSE b[i]])]), n, 1)
    IN IF T = <<>> /\ n > 0 THEN <<>> ELSE TLCEval([i \in 1..n |-> T[i][n + 1]])

\* largest ratio of off-diagonal to diagonal weight over the rows
Dominance(A) ==
    RMaxF(TLCEval([i \in 1..A.h |->
        RDiv(RSub(RSum(TLCEval([j \in 1..A.w |-> RAbs(A.c[i][j])])), RAbs(A.c[i][i])), RAbs(A.c[i][i]))]))
DiagonalSpread(A) ==
    LET d == TLCEval([i \in 1..A.h |-> RAbs(A.c[i][i])])
    IN RMaxF(TLCEval([i \in 1..A.h |-> RDiv(RMaxF(d), d[i])]))

\* the exact solution of the boxed problem, by enumeration of the active sets (small n)
BoxOk(A, b, lo, hi, x, tol) ==
    LET res == Residual(A, x, b)
    IN \A i \in 1..A.h :
          /\ RLe(RSub(lo[i], tol), x[i]) /\ RLe(x[i], RAdd(hi[i], tol))
          /\ RLe(res[i], tol) \/ RLe(x[i], RAdd(lo[i], tol))
          /\ RLe(RNeg(tol), res[i]) \/ RLe(RSub(hi[i], tol), x[i])
WithActive(A, b, lo, hi, act) ==          \* act[i] in {"free", "lo", "hi"}
    LET n == A.h
        E(j, i) == IF act[i] = "free" THEN A.c[i][j] ELSE IF i = j THEN ROne ELSE RZero
        r == TLCEval([i \in 1..n |-> IF act[i] = "free" THEN b[i] ELSE IF act[i] = "lo" THEN lo[i] ELSE hi[i]])
    IN SolveExact(Mat(n, n, E), r)
BoxSolutions(A, b, lo, hi, tol) ==
    {x \in {WithActive(A, b, lo, hi, act) : act \in [1..A.h -> {"free", "lo", "hi"}]} :
        x # <<>> /\ BoxOk(A, b, lo, hi, x, tol)}
=============================================================================
