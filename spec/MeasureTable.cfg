CONSTANTS W0 = 3
 W1 = 2
 W2 = 2
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
