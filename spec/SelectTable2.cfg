CONSTANT D = 2
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
