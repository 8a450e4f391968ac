INIT Init
NEXT Next
INVARIANTS Feasible Ends OneSolution Stopped Near Directions Emit
ACTION_CONSTRAINT Descends
CHECK_DEADLOCK FALSE
CONSTANTS
 Deltas <- DeltaTexts
 Emitting = TRUE
