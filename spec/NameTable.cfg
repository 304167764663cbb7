CONSTANT Letters = {"a", "A", "b"}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
