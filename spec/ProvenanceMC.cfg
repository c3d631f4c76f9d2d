INIT Init
NEXT Next
CONSTANTS
  Key = {"a", "b"}
  Val = {1, 2}
  MaxStep = 3
INVARIANTS VersionOK WalkOK SymOK StrictOK SelfOK LeakOK
CHECK_DEADLOCK FALSE
