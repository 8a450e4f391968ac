INIT Init
NEXT Next
VIEW View
INVARIANTS Room Holds
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Sizes = {0, 1, 2}
 Emitting = TRUE
