INIT Init
NEXT Next
INVARIANTS Closed Differences Relation Opposite Sane Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Emitting = TRUE
