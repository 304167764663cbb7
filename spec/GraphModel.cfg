CONSTANT K = 2
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
