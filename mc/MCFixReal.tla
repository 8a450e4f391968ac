------------------------------ MODULE MCFixReal ------------------------------
(***************************************************************************)
(* The arithmetic that TLC evaluates through java/scs/RealOverrides.java,  *)
(* against the laws of the integers it stands for (FixReal.tla).           *)
(***************************************************************************)
EXTENDS Lattice, TLCExt

VARIABLE c
Small == -7..7
Texts == {"0", "1", "-1", "0.5", "-0.75", "3.141592653589793", "1e-30", "-1e-38", "1e30", "-12345.678", "1/3", "0x1.8p+3", "1e100"}

Init == \/ c \in [t : {"int"}, a : Small, b : Small]
        \/ c \in [t : {"text"}, a : Texts, b : Texts, d : {"0.5", "-3", "1e-10"}]
Next == UNCHANGED c
A == IF c.t = "int" THEN RInt(c.a) ELSE RParse(c.a)
B == IF c.t = "int" THEN RInt(c.b) ELSE RParse(c.b)
D == IF c.t = "int" THEN RHalf ELSE RParse(c.d)
Unit == RParse("2.938735877055719e-39")         \* 2^-128, the step of the numbers
TinyOf(x) == RMul(Unit, RAdd(RTwo, RAbs(x)))

\* small integers: the override against TLC's own integers
Integers_ ==
    c.t = "int" =>
        /\ RAdd(A, B) = RInt(c.a + c.b) /\ RSub(A, B) = RInt(c.a - c.b) /\ RMul(A, B) = RInt(c.a * c.b)
        /\ RNeg(A) = RInt(-c.a) /\ RLe(A, B) = (c.a <= c.b) /\ RLt(A, B) = (c.a < c.b)
        /\ RAbs(A) = RInt(IF c.a < 0 THEN -c.a ELSE c.a)
        /\ c.b # 0 => RDiv(RInt(c.a * c.b), B) = A
        /\ c.b # 0 => RMul(RInt(2 * c.b), RDiv(A, RInt(2))) = RMul(A, B)
        /\ RSqrt(RInt(c.a * c.a)) = RAbs(A)
        /\ RMaxF([x \in {1, 2} |-> IF x = 1 THEN A ELSE B]) = RMax(RZero, RMax(A, B))
        /\ RSumF([x \in {"p", "q"} |-> IF x = "p" THEN A ELSE B]) = RAdd(A, B)
        /\ RSum(<<A, B, A>>) = RInt(2 * c.a + c.b)
        /\ RDot(<<A, B>>, <<B, A>>) = RInt(2 * c.a * c.b)
        /\ RAbsDot(<<A, B>>, <<B, A>>) = RAbs(RInt(2 * c.a * c.b))
        /\ RRead(c.a) = A /\ RRead(ToString(c.a)) = A
Laws ==
    /\ RAdd(A, B) = RAdd(B, A) /\ RMul(A, B) = RMul(B, A)
    /\ RAdd(RAdd(A, B), D) = RAdd(A, RAdd(B, D))
    /\ RSub(A, B) = RAdd(A, RNeg(B)) /\ RAdd(A, RZero) = A /\ RMul(A, ROne) = A /\ RMul(A, RZero) = RZero
    \* products are cut below 2^-128
    /\ Within(RMul(A, RAdd(B, D)), RAdd(RMul(A, B), RMul(A, D)), RMul(Unit, RInt(4)))
    /\ Within(RMul(RMul(A, B), D), RMul(A, RMul(B, D)), RAdd(TinyOf(A), TinyOf(D)))
    /\ ~RIsZero(B) => Within(RMul(RDiv(A, B), B), A, TinyOf(B))
    /\ RLe(A, B) \/ RLt(B, A)
    /\ RLt(A, B) => RLe(A, B) /\ ~RLe(B, A) /\ RLt(RAdd(A, D), RAdd(B, D))
    /\ LET s == RSqrt(RAbs(A)) IN Within(RMul(s, s), RAbs(A), TinyOf(s))
    /\ LET t == RClamp(D, RMin(A, B), RMax(A, B)) IN RLe(RMin(A, B), t) /\ RLe(t, RMax(A, B))
Trig ==
    LET Moderate(x) == RLe(RAbs(x), RInt(100000))
        co == RCos(A)
        si == RSin(A)
        e == RParse("1e-36")
        h == RParse("1e-12")
    IN Moderate(A) /\ Moderate(B) =>
        /\ Within(RAdd(RSq(co), RSq(si)), ROne, e)
        /\ Within(RCos(RAdd(A, B)), RSub(RMul(co, RCos(B)), RMul(si, RSin(B))), e)
        /\ Within(RSin(RAdd(A, B)), RAdd(RMul(si, RCos(B)), RMul(co, RSin(B))), e)
        /\ Within(RDiv(RSub(RSin(RAdd(A, h)), RSin(RSub(A, h))), RMul(RTwo, h)), co, RParse("1e-22"))
        /\ Within(RSin(RNeg(A)), RNeg(si), e) /\ Within(RCos(RNeg(A)), co, e)
ASSUME Reading ==
    /\ RParse("0.5") = RHalf /\ RParse("1/3") = RDiv(ROne, RInt(3)) /\ RParse("0x1.8p+3") = RInt(12)
    /\ RParse("-0x1p-1") = RNeg(RHalf) /\ RParse("1e2") = RInt(100) /\ RParse("0x0p+0") = RZero
    /\ RParse("0x1p-128") = Unit
    /\ RAllFinite("1.5") /\ ~RAllFinite("nan") /\ ~RAllFinite(<<"1", [x |-> <<"inf">>]>>) /\ RAllFinite(<<"1", [x |-> <<"2">>]>>)
    /\ ~RAllFinite("-inf") /\ RLt(RParse("0x1.fffffffffffffp+1023"), RRead("inf")) /\ RLt(RRead("-inf"), RNeg(RParse("0x1.fffffffffffffp+1023")))
=============================================================================
