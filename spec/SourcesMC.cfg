CONSTANTS
 MaxT = 5
 MaxGap = 3
 MaxBatch = 2
SPECIFICATION Spec
INVARIANTS Complete ConstOK TableOK
PROPERTY Ends
CHECK_DEADLOCK FALSE
