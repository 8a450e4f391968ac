-------------------------------- MODULE Tour --------------------------------
(***************************************************************************)
(* Transitions of a model, printed while TLC explores it, one line each:   *)
(*   EDGE|state|command|state                                              *)
(* gen/tours.py lays tours over the graph (every edge at least once) and   *)
(* turns the commands into a script for the real library; the recorded     *)
(* behaviour is then checked against the specification (spec/Trace.tla).   *)
(***************************************************************************)
EXTENDS TLC, Sequences

Edge(pre, cmd, post) == PrintT("EDGE|" \o ToString(pre) \o "|" \o cmd \o "|" \o ToString(post))
=============================================================================
