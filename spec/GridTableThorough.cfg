CONSTANTS
 N = 5
 V = 5
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
