CONSTANTS
 MaxPh = 4
 Ords = {0, 1}
INIT Init
NEXT Next
INVARIANTS LedgerOK NeverMoreThanGeometric LineFacts FocusFacts
CHECK_DEADLOCK FALSE
