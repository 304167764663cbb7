CONSTANTS
 N = 6
 V = 7
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
