CONSTANT N = 2
INIT Init
NEXT Next
INVARIANTS Covariant FirstMeeting
