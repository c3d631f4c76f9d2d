CONSTANT MaxSteps = 3
INIT Init
NEXT Next
INVARIANTS StepOK Global Corrupt
CHECK_DEADLOCK FALSE
