CONSTANTS
  Key = {"a", "b"}
  Val = {1, 2}
  MaxStep = 5
INIT GInit
NEXT GNext
INVARIANTS Tell
CHECK_DEADLOCK FALSE
