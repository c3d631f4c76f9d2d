CONSTANTS MaxCalls = 2
 MaxMoves = 1
INIT GInit
NEXT GNext
INVARIANTS Tell LastCallCounts Reset
CHECK_DEADLOCK FALSE
