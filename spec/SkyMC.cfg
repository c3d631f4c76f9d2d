CONSTANTS
 DecSteps = {0, 1, 60, 90, 135, 180}
 RollStep = 120
INIT Init
NEXT Next
INVARIANTS Rigid OnAxis RollTurns NorthUp PolOK TurnOK Ring Letter
CHECK_DEADLOCK FALSE
