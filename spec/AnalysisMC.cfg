CONSTANTS
 MaxPh = 3
 Ords = {0, 1}
INIT Init
NEXT Next
INVARIANTS LedgerOK NeverMoreThanGeometric LineFacts FocusFacts
CHECK_DEADLOCK FALSE
