CONSTANTS MaxStep = 7
 MaxSort = 11
INIT Init
NEXT Next
INVARIANTS KeptOK DerivedOK SameStartOK AsolOK ContentOK ColumnsOK LazyOK SortOK PlaneOK TurnQOK
CHECK_DEADLOCK FALSE
