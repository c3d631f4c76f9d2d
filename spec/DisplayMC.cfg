CONSTANT N = 4
INIT Init
NEXT Next
INVARIANTS FrameOK JoinOK LookOK TreeOK ChooseOK CoverOK ColorOK ArcOK
CHECK_DEADLOCK FALSE
