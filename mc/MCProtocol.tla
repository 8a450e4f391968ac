------------------------------ MODULE MCProtocol ------------------------------
(***************************************************************************)
(* Integrators driven side by side, each through start, (step, solve) per  *)
(* stage, end, over two states that they share one after the other: the    *)
(* protocol of Integrators.tla, with what each integrator remembers.       *)
(*                                                                         *)
(* run[o] = [phase, on]: phase of the advance, state it works on           *)
(* mem[o]: of which state the integrator keeps the start of an advance,    *)
(*         and how many evaluations it has accumulated since               *)
(***************************************************************************)
EXTENDS Integrators, Tour

CONSTANTS Runs, States, Emitting
VARIABLES run, mem, cmd

Method(o) == CASE o \in {"r1", "r2"} -> "rk4" [] o = "e1" -> "euler" [] OTHER -> "nsv"
Free(q) == \A o \in Runs : run[o].on # q
Init ==
    /\ run = [o \in Runs |-> [phase |-> <<"idle">>, on |-> "-"]]
    /\ mem = [o \in Runs |-> <<"-", 0>>]
    /\ cmd = ""
Go(o, call, on) == run' = [run EXCEPT ![o] = [phase |-> ProtocolNext(Method(o), run[o].phase, call), on |-> on]]

Start(o, q) ==
    /\ Free(q) \/ (run[o].phase = <<"done">> /\ run[o].on = q)
    /\ run[o].phase \in {<<"idle">>, <<"done">>}
    /\ Go(o, "start", q)
    /\ mem' = [mem EXCEPT ![o] = <<q, 0>>]
    /\ cmd' = "ostart " \o o \o " " \o q
Step(o) ==
    /\ run[o].phase[1] = "ready"
    /\ Go(o, "step", run[o].on)
    /\ UNCHANGED mem
    /\ cmd' = "ostep " \o o \o " " \o run[o].on
Solve(o) ==
    /\ run[o].phase[1] = "asked"
    /\ Go(o, "solve", run[o].on)
    /\ mem' = [mem EXCEPT ![o][2] = @ + 1]
    /\ cmd' = "osolve " \o o \o " " \o run[o].on
End(o) ==
    /\ run[o].phase = <<"done">>
    /\ Go(o, "end", "-")
    /\ UNCHANGED mem
    /\ cmd' = "oend " \o o
Next == \E o \in Runs : (\E q \in States : Start(o, q)) \/ Step(o) \/ Solve(o) \/ End(o)
-----------------------------------------------------------------------------
NoError == \A o \in Runs : run[o].phase # <<"error">>
\* an advance ends after exactly as many evaluations as the method has stages, all of them of this advance
Counted ==
    \A o \in Runs :
        /\ run[o].phase = <<"done">> => mem[o] = <<run[o].on, StageCount(Method(o))>>
        /\ run[o].phase[1] \in {"ready", "asked"} => mem[o] = <<run[o].on, run[o].phase[2] - 1>>
Apart == \A o, p \in Runs : o # p /\ run[o].on # "-" => run[o].on # run[p].on
Shown == [o \in Runs |-> <<run[o].on, run[o].phase>>]
Emit == Emitting => Edge(Shown, cmd', Shown')
View == <<run, mem>>
=============================================================================
