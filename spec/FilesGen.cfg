CONSTANTS MaxStep = 4
 MaxSort = 3
INIT GInit
NEXT GNext
INVARIANTS Tell KeptOK SameStartOK
CHECK_DEADLOCK FALSE
