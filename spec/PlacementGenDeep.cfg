CONSTANTS MaxCalls = 7
 MaxMoves = 2
INIT GInit
NEXT GNext
INVARIANTS Tell
CHECK_DEADLOCK FALSE
