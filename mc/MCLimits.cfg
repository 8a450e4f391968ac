INIT Init
NEXT Next
VIEW Regime
ACTION_CONSTRAINTS Checked Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Speeds <- SpeedSet
 Caps = {0, 1, 5}
 Emitting = TRUE
