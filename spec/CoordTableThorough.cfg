CONSTANT Size = 8
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
