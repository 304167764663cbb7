CONSTANT Top = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
