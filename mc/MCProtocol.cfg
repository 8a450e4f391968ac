INIT Init
NEXT Next
VIEW View
INVARIANTS NoError Counted Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Runs = {"r1", "r2"}
 States = {"qa", "qb"}
 Emitting = TRUE
