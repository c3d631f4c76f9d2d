INIT Init
NEXT Next
CONSTANTS
  Chan = 4
  NRow = 2
  Vals = {0, 1, 2}
  Firsts = {0, 1, 5}
INVARIANTS Tell ExpandOK
CHECK_DEADLOCK FALSE
