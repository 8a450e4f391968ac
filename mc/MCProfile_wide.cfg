INIT Init
NEXT Next
VIEW Shown
INVARIANTS Mean Counted Oldest Latest
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Window = 7
 Costs = {0, 1, 5}
 Emitting = FALSE
