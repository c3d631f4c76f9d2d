CONSTANTS MaxN = 9
INIT Init
NEXT Next
INVARIANT Tell
CHECK_DEADLOCK FALSE
