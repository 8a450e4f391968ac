INIT Init
NEXT Next
INVARIANTS RungeKutta Euler Symplectic Thrown Still Coordinates Published Ends Emit
CHECK_DEADLOCK TRUE
CONSTANTS
 Emitting = TRUE
