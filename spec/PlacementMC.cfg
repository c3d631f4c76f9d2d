CONSTANTS MaxCalls = 2
 MaxMoves = 1
SPECIFICATION Spec
INVARIANTS LastCallCounts Reset AboutItsCentre GroupRigid Independent
PROPERTY MovingTheCentreMovesNothing
CHECK_DEADLOCK FALSE
