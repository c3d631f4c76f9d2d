CONSTANTS
 Nm = {"a", "b"}
 Val = {1, 2}
 MaxRow = 3
 MaxStep = 5
INIT Init
NEXT Next
INVARIANTS AgreeOK HomeOK CopyOK LeakSeen
CHECK_DEADLOCK FALSE
