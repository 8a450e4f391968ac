---------------------------- MODULE Integrators ----------------------------
(***************************************************************************)
(* The three integrators as explicit methods.  A method of s stages asks   *)
(* for accelerations at s states; Stage(m, i, ...) is the i-th of those    *)
(* states, computed from the initial state and the accelerations found at  *)
(* the earlier ones, and Final(m, ...) the state it ends with.             *)
(*                                                                         *)
(*   k0      motion record at the start                                    *)
(*   es      sequence of evaluations so far: [k, a] (state, acceleration)   *)
(***************************************************************************)
EXTENDS Frames

Methods == {"euler", "nsv", "rk4"}
StageCount(m) == IF m = "rk4" THEN 4 ELSE 1

\* position and velocity of k0 moved by h with velocity taken from k and acceleration a
Drift(k0, k, a, h) ==
    [x |-> RAdd(k0.x, RMul(h, k.vx)), y |-> RAdd(k0.y, RMul(h, k.vy)), th |-> RAdd(k0.th, RMul(h, k.om)),
     vx |-> RAdd(k0.vx, RMul(h, a[1])), vy |-> RAdd(k0.vy, RMul(h, a[2])), om |-> RAdd(k0.om, RMul(h, a[3]))]

StageTime(m, i, h) ==
    IF m # "rk4" THEN h
    ELSE CASE i = 1 -> RZero [] i \in {2, 3} -> RMul(RHalf, h) [] i = 4 -> h

Stage(m, i, k0, es, h) == IF i = 1 THEN k0 ELSE Drift(k0, es[i - 1].k, es[i - 1].a, StageTime(m, i, h))

StageWeight(i) == IF i \in {1, 4} THEN RDiv(ROne, RInt(6)) ELSE RDiv(ROne, RInt(3))

Mean4(u) == RAdd(RAdd(RMul(StageWeight(1), u[1]), RMul(StageWeight(2), u[2])),
                 RAdd(RMul(StageWeight(3), u[3]), RMul(StageWeight(4), u[4])))

Final(m, k0, es, h) ==
    CASE m = "euler" -> Drift(k0, k0, es[1].a, h)
      [] m = "nsv" ->
           LET v == Drift(k0, k0, es[1].a, h)
           IN [v EXCEPT !.x = RAdd(k0.x, RMul(h, v.vx)), !.y = RAdd(k0.y, RMul(h, v.vy)), !.th = RAdd(k0.th, RMul(h, v.om))]
      [] m = "rk4" ->
           [x |-> RAdd(k0.x, RMul(h, Mean4([i \in 1..4 |-> es[i].k.vx]))),
            y |-> RAdd(k0.y, RMul(h, Mean4([i \in 1..4 |-> es[i].k.vy]))),
            th |-> RAdd(k0.th, RMul(h, Mean4([i \in 1..4 |-> es[i].k.om]))),
            vx |-> RAdd(k0.vx, RMul(h, Mean4([i \in 1..4 |-> es[i].a[1]]))),
            vy |-> RAdd(k0.vy, RMul(h, Mean4([i \in 1..4 |-> es[i].a[2]]))),
            om |-> RAdd(k0.om, RMul(h, Mean4([i \in 1..4 |-> es[i].a[3]])))]

\* the reaction a method publishes, from the reactions found in its evaluations
PublishedReaction(m, rs) == IF m = "rk4" THEN Mean4(rs) ELSE rs[Len(rs)]

(* The order in which an integrator has to be driven: start, then step and *)
(* solve for every stage (step tells whether this stage is the last), then *)
(* end.  Phases of one advance: *)
ProtocolNext(m, phase, call) ==
    CASE call = "start" /\ phase \in {<<"idle">>, <<"done">>} -> <<"ready", 1>>
      [] call = "step" /\ phase[1] = "ready" -> <<"asked", phase[2]>>
      [] call = "solve" /\ phase[1] = "asked" ->
           IF phase[2] = StageCount(m) THEN <<"done">> ELSE <<"ready", phase[2] + 1>>
      [] call = "end" /\ phase = <<"done">> -> <<"idle">>
      [] OTHER -> <<"error">>
=============================================================================
