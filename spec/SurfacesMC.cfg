CONSTANT N = 1
INIT Init
NEXT Next
INVARIANTS Covariant FirstMeeting
