CONSTANTS MaxStep = 8
 MaxOrder = 3
 NBin = 8
INIT Init
NEXT Next
INVARIANTS SumOK NamesOK CountOK GapOK MirrorOK StraightOK AverageOK ClipOK
CHECK_DEADLOCK FALSE
