INIT Init
NEXT Next
CONSTANTS MaxBounce = 3
Many = FALSE
INVARIANTS UnitOK WeightOK AngleOK BackOK ShareOK PureOK LossOK
CHECK_DEADLOCK FALSE
