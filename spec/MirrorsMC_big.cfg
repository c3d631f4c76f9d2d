INIT Init
NEXT Next
CONSTANTS MaxBounce = 4
Many = TRUE
INVARIANTS UnitOK WeightOK AngleOK BackOK ShareOK PureOK LossOK
CHECK_DEADLOCK FALSE
