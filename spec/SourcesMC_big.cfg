CONSTANTS
 MaxT = 8
 MaxGap = 3
 MaxBatch = 3
SPECIFICATION Spec
INVARIANTS Complete ConstOK TableOK
PROPERTY Ends
CHECK_DEADLOCK FALSE
