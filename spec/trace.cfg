SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
 Step <- TraceStep
 St0 <- TraceSt0
