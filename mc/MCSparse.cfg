INIT Init
NEXT Next
VIEW Full
INVARIANTS Capacity Stands WellFormed Products
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Blocks = {0, 1, 2}
 Heights = {0, 1, 2}
 Emitting = FALSE
