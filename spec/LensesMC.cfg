CONSTANTS
 MaxRays = 2
 Thin = TRUE
INIT Init
NEXT Next
INVARIANTS OneFocus CentreRay ThinOK Agree
CHECK_DEADLOCK FALSE
