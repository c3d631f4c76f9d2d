CONSTANTS
  Nm = {"AA", "BB"}
  Val = {1, 2}
  MaxRow = 3
  MaxStep = 9
INIT GInit
NEXT GNext
INVARIANTS Tell
CHECK_DEADLOCK FALSE
