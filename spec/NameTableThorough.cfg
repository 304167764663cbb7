CONSTANT Letters = {"a", "A", "b", "x 1", "Bx"}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
