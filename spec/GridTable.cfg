CONSTANTS
 N = 4
 V = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
