CONSTANTS
  MaxPh = 3
  Ords = {0, 1}
INIT GInit
NEXT GNext
CONSTRAINT Short
INVARIANTS Tell LedgerOK
CHECK_DEADLOCK FALSE
