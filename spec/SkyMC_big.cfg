CONSTANTS
 DecSteps = {0, 1, 30, 60, 89, 90, 105, 135, 179, 180}
 RollStep = 20
INIT Init
NEXT Next
INVARIANTS Rigid OnAxis RollTurns NorthUp PolOK TurnOK Ring Letter
CHECK_DEADLOCK FALSE
