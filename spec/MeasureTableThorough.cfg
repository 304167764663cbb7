CONSTANTS W0 = 4
 W1 = 2
 W2 = 3
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
