CONSTANTS
  Fac = {1, 2, 4}
  Area = 12
  MaxFile = 7
  Ord <- OrdDef
  Off <- OffDef
INIT GInit
NEXT GNext
INVARIANTS Tell
CHECK_DEADLOCK FALSE
