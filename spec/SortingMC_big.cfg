INIT Init
NEXT Next
CONSTANTS
  Fac = {1, 2, 4}
  Area = 12
  MaxFile = 3
  Ord <- OrdBig
  Off <- OffDef
INVARIANTS OnceOK BulkOK NoOtherSide WrongSeen
CHECK_DEADLOCK FALSE
