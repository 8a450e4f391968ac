INIT Init
NEXT Next
INVARIANTS Integers_ Laws Trig
CHECK_DEADLOCK FALSE
