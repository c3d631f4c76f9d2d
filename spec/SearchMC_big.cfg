INIT Init
NEXT Next
CONSTANTS MaxN = 6
INVARIANTS WalkOK BeamOK MonoOK CoverOK FirstOK
CHECK_DEADLOCK FALSE
