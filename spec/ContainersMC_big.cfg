CONSTANTS MaxPre = 2
 MaxPost = 2
 Deep = TRUE
SPECIFICATION Spec
INVARIANTS Order Handed Ends Bounded
CHECK_DEADLOCK FALSE
