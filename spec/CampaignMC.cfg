CONSTANTS MaxLen = 3
 MaxEn = 2
SPECIFICATION Spec
INVARIANTS Pristine EachOnItsOwn OncePerSetting Order Complete
PROPERTY Finishes
CHECK_DEADLOCK FALSE
