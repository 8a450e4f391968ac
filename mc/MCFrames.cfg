INIT Init
NEXT Next
INVARIANTS RoundTrip Rigid Speed Power Energy Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Emitting = TRUE
