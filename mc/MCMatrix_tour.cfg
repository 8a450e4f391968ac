INIT Init
NEXT Next
VIEW Shape
INVARIANTS InBounds Apart Capacity Stands
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Widths = {0, 1, 2}
 Heights = {0, 1, 2}
 Emitting = TRUE
