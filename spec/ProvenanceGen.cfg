CONSTANTS
  Key = {"a", "b"}
  Val = {1, 2}
  MaxStep = 2
INIT GInit
NEXT GNext
INVARIANTS Tell VersionOK
CHECK_DEADLOCK FALSE
