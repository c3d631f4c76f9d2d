CONSTANTS MaxPre = 1
 MaxPost = 1
 Deep = TRUE
INIT Init
NEXT GNext
INVARIANT Tell
CHECK_DEADLOCK FALSE
