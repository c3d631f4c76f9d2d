CONSTANT MaxSteps = 5
INIT Init
NEXT Next
INVARIANTS StepOK Global Corrupt
CHECK_DEADLOCK FALSE
