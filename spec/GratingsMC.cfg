CONSTANTS
 MaxSteps = 3
 MaxOrder = 2
INIT Init
NEXT Next
INVARIANTS UnitRay AlongGrooves AddsUp Restored OrderZero Turned Covariant BlazeOK
CHECK_DEADLOCK FALSE
