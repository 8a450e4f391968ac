INIT Init
NEXT Next
INVARIANTS Emit
ACTION_CONSTRAINT Checked
CHECK_DEADLOCK FALSE
CONSTANTS
 Emitting = TRUE
 Family = "wide"
 Steps = 2
