CONSTANT MaxW = 8
INIT Init
NEXT Next
INVARIANTS SupportOK InProportion Survival PlausibleOK NotVacuous Look Interp
CHECK_DEADLOCK FALSE
