---------------------------- MODULE MCIntegrators ----------------------------
(***************************************************************************)
(* What the three methods give on a problem whose solution is known: a     *)
(* damped oscillator with a constant load,                                 *)
(*        x'' = -a x - b x' + g                                            *)
(* driven through the protocol start, (step, solve)*, end.                 *)
(***************************************************************************)
EXTENDS Lattice, Integrators

CONSTANTS Emitting
VARIABLES c, phase, es, k
vars == <<c, phase, es, k>>
Starts == {<<"0", "0">>, <<"1", "0">>, <<"0", "1">>, <<"-2", "3">>}
Problems == {<<"0", "0", "0">>, <<"0", "0", "-9.81">>, <<"4", "0", "0">>, <<"0", "0.5", "1">>, <<"25", "2", "-3">>, <<"-1", "0", "0">>}
Lengths == {"0.1", "0.001", "1", "-0.25", "0"}
V == Values(c.p)
H == RParse(c.h)
Acc(q) == RAdd(RSub(RNeg(RMul(V[1], q.x)), RMul(V[2], q.vx)), V[3])
\* the same problem in all three coordinates
Whole(x, v) == [x |-> x, y |-> RNeg(x), th |-> x, vx |-> v, vy |-> RNeg(v), om |-> v]
Acc3(q) == <<Acc(q), RAdd(RSub(RNeg(RMul(V[1], q.y)), RMul(V[2], q.vy)), RNeg(V[3])), Acc(q)>>
K0 == LET s == Values(c.s) IN Whole(s[1], s[2])

Init == /\ \E m \in Methods, s \in Starts, p \in Problems, h \in Lengths : c = [m |-> m, s |-> s, p |-> p, h |-> h]
        /\ phase = <<"idle">> /\ es = <<>> /\ k = K0
Calls == {"start", "step", "solve", "end"}
Take(call) ==
    LET to == ProtocolNext(c.m, phase, call)
    IN /\ to # <<"error">>
       /\ phase' = to
       /\ k' = CASE call = "step" -> Stage(c.m, phase[2], K0, es, H)
                 [] call = "solve" /\ to = <<"done">> -> Final(c.m, K0, Append(es, [k |-> k, a |-> Acc3(k)]), H)
                 [] OTHER -> k
       /\ es' = IF call = "solve" THEN Append(es, [k |-> k, a |-> Acc3(k)]) ELSE es
       /\ UNCHANGED c
Next == \/ phase # <<"done">> /\ \E call \in Calls : Take(call)
        \/ phase = <<"done">> /\ UNCHANGED vars       \* nothing else ends it
-----------------------------------------------------------------------------
e == RParse("1e-27")
Near2(u, v) == Within(u[1], v[1], e) /\ Within(u[2], v[2], e)
Done == phase = <<"done">>
\* derivatives of the solution at the start: D(j) = the j-th derivative of <<x, v>>
RECURSIVE D(_)
D(j) == IF j = 0 THEN <<K0.x, K0.vx>>
        ELSE LET d == D(j - 1)
             IN <<d[2], RAdd(RSub(RNeg(RMul(V[1], d[1])), RMul(V[2], d[2])), IF j = 1 THEN V[3] ELSE RZero)>>
RECURSIVE Power(_, _)
Power(x, j) == IF j = 0 THEN ROne ELSE RMul(x, Power(x, j - 1))
Fact(j) == CASE j = 0 -> 1 [] j = 1 -> 1 [] j = 2 -> 2 [] j = 3 -> 6 [] j = 4 -> 24
Taylor(n) == LET T(i) == RSum(TLCEval([j \in 1..(n + 1) |-> RDiv(RMul(Power(H, j - 1), D(j - 1)[i]), RInt(Fact(j - 1)))]))
             IN <<T(1), T(2)>>
\* [C11] the method's order: Taylor's polynomial, to degree four or one
RungeKutta == Done /\ c.m = "rk4" => Near2(<<k.x, k.vx>>, Taylor(4))
Euler == Done /\ c.m = "euler" => Near2(<<k.x, k.vx>>, Taylor(1))
\* the third moves positions by the new velocities
Symplectic == Done /\ c.m = "nsv" =>
    /\ Within(k.vx, Taylor(1)[2], e) /\ Within(k.x, RAdd(K0.x, RMul(H, k.vx)), e)
    \* undamped and unloaded: it conserves a x^2 + v^2 - h a x v exactly
    /\ RIsZero(V[2]) /\ RIsZero(V[3]) =>
         LET P(x, v) == RAdd(RMul(V[1], RSq(x)), RAdd(RSq(v), RNeg(RMul(H, RMul(V[1], RMul(x, v))))))
         IN Within(P(k.x, k.vx), P(K0.x, K0.vx), e)
Thrown ==   \* a constant load: the exact parabola for the fourth order method
    Done /\ RIsZero(V[1]) /\ RIsZero(V[2]) /\ c.m = "rk4" =>
        Within(k.x, RAdd(K0.x, RAdd(RMul(H, K0.vx), RMul(RHalf, RMul(V[3], RSq(H))))), e)
Still == Done /\ RIsZero(H) => k = K0
Coordinates == Within(k.y, RNeg(k.x), e) /\ Within(k.th, k.x, e) /\ Within(k.vy, RNeg(k.vx), e) /\ Within(k.om, k.vx, e)
\* [C09] the published reaction is a mean of those found: exact for a constant one
Published == Done => /\ Len(es) = StageCount(c.m)
                     /\ Within(PublishedReaction(c.m, [i \in 1..StageCount(c.m) |-> V[3]]), V[3], e)
Ends == phase = <<"idle">> \/ phase[1] \in {"ready", "asked", "done"}
Emit == Emitting /\ phase = <<"idle">> =>
    Case("swing " \o c.m \o Words(c.s) \o Words(c.p) \o " " \o c.h)
=============================================================================
