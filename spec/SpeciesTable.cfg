CONSTANT Q = 6
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
