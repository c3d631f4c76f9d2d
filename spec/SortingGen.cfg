CONSTANTS
  Fac = {1, 2, 4}
  Area = 12
  MaxFile = 4
  Ord <- OrdDef
  Off <- OffDef
INIT GInit
NEXT GNext
INVARIANTS Tell OnceOK
CHECK_DEADLOCK FALSE
