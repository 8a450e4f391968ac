------------------------------ MODULE FixReal ------------------------------
(***************************************************************************)
(* The real numbers the specification computes with.                       *)
(*                                                                         *)
(* A real x is the (unbounded) TLA+ integer k with x = k / 2^128.  The     *)
(* definitions below are the meaning of every operator.  TLC's integers    *)
(* have 32 bits, so TLC evaluates them through java/scs/RealOverrides.java,*)
(* which computes the same integers with BigInteger and stores them in     *)
(* 30-bit limbs.  The model MCFixReal.tla checks the override against ring *)
(* and order laws and against exactly representable small cases.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Scale == 2^128

RInt(n) == n * Scale
RAdd(a, b) == a + b
RSub(a, b) == a - b
RNeg(a) == -a
RAbs(a) == IF a < 0 THEN -a ELSE a
RMul(a, b) == (a * b) \div Scale
RDiv(a, b) == (a * Scale) \div b
RLe(a, b) == a <= b
RLt(a, b) == a < b
RSqrt(a) == CHOOSE r \in Nat : r * r <= a * Scale /\ (r + 1) * (r + 1) > a * Scale

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RInt(0) ELSE RAdd(Head(s), RSum(Tail(s)))

RECURSIVE RDot(_, _)
RDot(s, t) == IF s = <<>> THEN RInt(0)
              ELSE RAdd(RMul(Head(s), Head(t)), RDot(Tail(s), Tail(t)))

RECURSIVE RAbsDot(_, _)
RAbsDot(s, t) == IF s = <<>> THEN RInt(0)
                 ELSE RAdd(RAbs(RMul(Head(s), Head(t))), RAbsDot(Tail(s), Tail(t)))

(* Sum and maximum (at least 0) of the values of a function on a finite set *)
RECURSIVE RSumOver(_, _)
RSumOver(f, S) == IF S = {} THEN RInt(0)
                  ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(f[x], RSumOver(f, S \ {x}))
RSumF(f) == RSumOver(f, DOMAIN f)
RMaxF(f) == CHOOSE m \in {RInt(0)} \cup {f[x] : x \in DOMAIN f} :
              /\ RLe(RInt(0), m)
              /\ \A x \in DOMAIN f : RLe(f[x], m)

(* Sine and cosine: the value of the power series, cut where the next term *)
(* no longer shows in 128 fractional bits.  (The override reduces the      *)
(* argument modulo pi/2 first and keeps 320 bits while it computes.)       *)
LOCAL Small(t) == -1 < t /\ t < 1
RECURSIVE TrigSeries(_, _, _)
LOCAL TrigSeries(x, t, n) ==
    IF Small(t) THEN t
    ELSE t + TrigSeries(x, -(((t * x) \div Scale) * x) \div (Scale * (n + 1) * (n + 2)), n + 2)
RCos(x) == TrigSeries(x, Scale, 0)
RSin(x) == TrigSeries(x, x, 1)

(* Text: a decimal numeral, a C hexadecimal floating constant ("%a"), or a *)
(* quotient "p/q" of two of those.  RFinite is FALSE for "nan" and "inf".  *)
RParse(s) == CHOOSE k \in Int : TRUE
RFinite(s) == CHOOSE b \in BOOLEAN : TRUE
RShow(a) == CHOOSE s \in STRING : TRUE

(* Recorded values: an integer, or text as above; "inf", "-inf" and "nan"  *)
(* read as three numbers beyond every finite double.  RAllFinite looks into records and  *)
(* sequences for "nan", "inf" and "-inf".                                  *)
RRead(v) == CHOOSE k \in Int : TRUE
RReadSeq(s) == [i \in DOMAIN s |-> RRead(s[i])]
RAllFinite(v) == CHOOSE b \in BOOLEAN : TRUE

-----------------------------------------------------------------------------
RZero == RInt(0)
ROne == RInt(1)
RTwo == RInt(2)
RHalf == RDiv(ROne, RTwo)
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RClamp(x, lo, hi) == RMax(lo, RMin(hi, x))
RSq(a) == RMul(a, a)
RIsZero(a) == a = RZero

(* |x - y| <= tol * (1 + scale): x and y agree relative to the magnitude   *)
(* scale of the terms that were added up to compute them.                  *)
RNear(x, y, scale, tol) == RLe(RAbs(RSub(x, y)), RMul(tol, RAdd(ROne, scale)))
RNearS(x, y, tol) == RNear(x, y, RMax(RAbs(x), RAbs(y)), tol)
RNearZero(x, scale, tol) == RLe(RAbs(x), RMul(tol, RAdd(ROne, scale)))
=============================================================================
