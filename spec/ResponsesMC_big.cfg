INIT Init
NEXT Next
CONSTANTS
  Chan = 6
  NRow = 2
  Vals = {1, 2}
  Firsts = {0, 1, 2, 5, 30}
INVARIANTS ExpandOK MaximalOK FirstMatters
CHECK_DEADLOCK FALSE
