INIT Init
NEXT Next
VIEW State
INVARIANTS Membership Outsiders InOnePlace
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Bodies = {"b1", "b2"}
 Joints = {"p1", "p2", "k12"}
 Gens = {"s12", "g1"}
 Systems = {"y0", "y1"}
 Ends <- EndsTwo
 Resets = FALSE
 Emitting = TRUE
