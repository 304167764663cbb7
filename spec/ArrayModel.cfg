CONSTANT Names = {"t", "r", "e"}
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
