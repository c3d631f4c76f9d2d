CONSTANT Many = FALSE
INIT Init
NEXT Next
INVARIANTS UnitOK ProbOK CrossOK StraightOK QualityOK CoarseOK BroadenOK BarOK
CHECK_DEADLOCK FALSE
