INIT Init
NEXT Next
VIEW Full
INVARIANTS InBounds Apart Capacity Stands
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Widths = {0, 1, 2}
 Heights = {0, 1, 2}
 Emitting = FALSE
