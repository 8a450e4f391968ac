INIT Init
NEXT Next
VIEW Shape
INVARIANTS Capacity Stands WellFormed Products
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Blocks = {0, 1}
 Heights = {0, 1, 2}
 Emitting = TRUE
