INIT Init
NEXT Next
CONSTANTS
  Fac = {1, 2, 4}
  Area = 12
  MaxFile = 4
  Ord <- OrdDef
  Off <- OffDef
INVARIANTS OnceOK BulkOK NoOtherSide WrongSeen
CHECK_DEADLOCK FALSE
