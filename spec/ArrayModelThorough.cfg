CONSTANT Names = {"t", "r", "e", "q"}
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
