CONSTANTS MaxLen = 3
 MaxEn = 2
INIT GInit
NEXT GNext
INVARIANTS Tell Pristine EachOnItsOwn Complete
CHECK_DEADLOCK FALSE
