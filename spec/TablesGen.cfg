CONSTANTS
  Nm = {"AA", "BB"}
  Val = {1, 2}
  MaxRow = 2
  MaxStep = 3
INIT GInit
NEXT GNext
INVARIANTS Tell AgreeOK HomeOK
CHECK_DEADLOCK FALSE
