INIT Init
NEXT Next
CONSTANTS Many = FALSE
INVARIANTS UnitOK PlaneOK LineOK ZeroOK OctOK
CHECK_DEADLOCK FALSE
