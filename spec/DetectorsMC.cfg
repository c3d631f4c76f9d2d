CONSTANTS
 MaxN = 6
INIT Init
NEXT Next
INVARIANTS FlatOK CurvedOK WidthOK NormalOK NotVacuous
CHECK_DEADLOCK FALSE
