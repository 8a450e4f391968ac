INIT Init
NEXT Next
INVARIANTS Opposite Moments Gradient Ground Dissipates Torque Weight Fixed Adds Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Emitting = TRUE
