------------------------------ MODULE Clauses -------------------------------
(***************************************************************************)
(* A clause is a named piece of a property.  Fail(ps, name, ok) is {name}  *)
(* when the clause belongs to the property being checked and does not hold.*)
(* The property is given by the environment variable PROP ("ALL": each).   *)
(***************************************************************************)
EXTENDS IOUtils, TLC

PROP == IOEnv.PROP
Want(ps) == PROP = "ALL" \/ PROP \in ps
Fail(ps, name, ok) == IF Want(ps) THEN IF ok THEN {} ELSE {name} ELSE {}
Always(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
