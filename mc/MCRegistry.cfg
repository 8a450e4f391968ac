INIT Init
NEXT Next
VIEW State
INVARIANTS Membership Outsiders InOnePlace
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Bodies = {"b1", "b2", "b3"}
 Joints = {}
 Gens = {}
 Systems = {"y0", "y1"}
 Ends <- EndsNone
 Resets = TRUE
 Emitting = TRUE
