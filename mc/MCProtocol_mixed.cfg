INIT Init
NEXT Next
VIEW View
INVARIANTS NoError Counted Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Runs = {"r1", "e1", "n1"}
 States = {"qa", "qb"}
 Emitting = TRUE
