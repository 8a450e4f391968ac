INIT Init
NEXT Next
VIEW Full
INVARIANTS Room Holds
CHECK_DEADLOCK FALSE
CONSTANTS
 Sizes = {0, 1, 2}
 Emitting = FALSE
