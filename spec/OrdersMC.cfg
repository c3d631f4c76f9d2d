CONSTANT MaxW = 4
INIT Init
NEXT Next
INVARIANTS SupportOK InProportion Survival PlausibleOK NotVacuous Look Interp
CHECK_DEADLOCK FALSE
