CONSTANTS
 MaxSteps = 4
 MaxOrder = 3
INIT Init
NEXT Next
INVARIANTS UnitRay AlongGrooves AddsUp Restored OrderZero Turned Covariant BlazeOK
CHECK_DEADLOCK FALSE
