CONSTANT K = 3
INIT Init
NEXT Next
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
