CONSTANTS MaxLen = 4
 MaxEn = 3
SPECIFICATION Spec
INVARIANTS Pristine EachOnItsOwn OncePerSetting Order Complete
PROPERTY Finishes
CHECK_DEADLOCK FALSE
