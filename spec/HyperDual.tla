----------------------------- MODULE HyperDual -----------------------------
(***************************************************************************)
(* Numbers a + b e1 + c e2 + d e1 e2 with e1^2 = e2^2 = 0, written         *)
(* <<a, b, c, d>>.  Evaluating a function of coordinates q on them, with   *)
(* e1 attached to one coordinate q_k and e2 to the motion qdot, yields the *)
(* value, its partial derivative in q_k, its time derivative, and the time *)
(* derivative of the partial derivative: the joints' errors are written    *)
(* once (Joints.tla) and their Jacobians and Jacobian rates follow.        *)
(***************************************************************************)
EXTENDS FixReal

HConst(r) == <<r, RZero, RZero, RZero>>
HVar(q, seed, rate) == <<q, seed, rate, RZero>>

HAdd(x, y) == <<RAdd(x[1], y[1]), RAdd(x[2], y[2]), RAdd(x[3], y[3]), RAdd(x[4], y[4])>>
HSub(x, y) == <<RSub(x[1], y[1]), RSub(x[2], y[2]), RSub(x[3], y[3]), RSub(x[4], y[4])>>
HNeg(x) == <<RNeg(x[1]), RNeg(x[2]), RNeg(x[3]), RNeg(x[4])>>
HMul(x, y) ==
    <<RMul(x[1], y[1]),
      RAdd(RMul(x[1], y[2]), RMul(x[2], y[1])),
      RAdd(RMul(x[1], y[3]), RMul(x[3], y[1])),
      RAdd(RAdd(RMul(x[1], y[4]), RMul(x[4], y[1])),
           RAdd(RMul(x[2], y[3]), RMul(x[3], y[2])))>>
HScale(r, x) == <<RMul(r, x[1]), RMul(r, x[2]), RMul(r, x[3]), RMul(r, x[4])>>

HCos(x) ==
    LET c == RCos(x[1])
        s == RSin(x[1])
    IN <<c, RNeg(RMul(s, x[2])), RNeg(RMul(s, x[3])),
         RNeg(RAdd(RMul(s, x[4]), RMul(c, RMul(x[2], x[3]))))>>
HSin(x) ==
    LET c == RCos(x[1])
        s == RSin(x[1])
    IN <<s, RMul(c, x[2]), RMul(c, x[3]),
         RSub(RMul(c, x[4]), RMul(s, RMul(x[2], x[3])))>>
=============================================================================
