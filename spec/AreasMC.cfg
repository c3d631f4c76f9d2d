CONSTANTS MaxStep = 6
 MaxOrder = 2
 NBin = 4
INIT Init
NEXT Next
INVARIANTS SumOK NamesOK CountOK GapOK MirrorOK StraightOK AverageOK ClipOK
CHECK_DEADLOCK FALSE
