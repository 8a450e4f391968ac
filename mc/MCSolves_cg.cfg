INIT Init
NEXT Next
VIEW Size
INVARIANTS Clean
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "cg"
 Sizes = {0, 1, 2, 5}
 Emitting = TRUE
