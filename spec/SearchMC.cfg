INIT Init
NEXT Next
CONSTANTS MaxN = 5
INVARIANTS WalkOK BeamOK MonoOK CoverOK FirstOK
CHECK_DEADLOCK FALSE
