CONSTANTS MaxPre = 2
 MaxPost = 2
 Deep = FALSE
INIT Init
NEXT GNext
INVARIANT Tell
CHECK_DEADLOCK FALSE
