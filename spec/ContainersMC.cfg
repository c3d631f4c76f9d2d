CONSTANTS MaxPre = 1
 MaxPost = 1
 Deep = TRUE
SPECIFICATION Spec
INVARIANTS Order Handed Ends Bounded
CHECK_DEADLOCK FALSE
