CONSTANTS MaxStep = 5
 MaxSort = 9
INIT Init
NEXT Next
INVARIANTS KeptOK DerivedOK SameStartOK AsolOK ContentOK ColumnsOK LazyOK SortOK PlaneOK TurnQOK
CHECK_DEADLOCK FALSE
