CONSTANTS MaxCalls = 4
 MaxMoves = 2
SPECIFICATION Spec
INVARIANTS LastCallCounts Reset AboutItsCentre GroupRigid Independent
PROPERTY MovingTheCentreMovesNothing
CHECK_DEADLOCK FALSE
