INIT Init
NEXT Next
CONSTANTS Many = TRUE
INVARIANTS UnitOK PlaneOK LineOK ZeroOK OctOK
CHECK_DEADLOCK FALSE
