CONSTANTS
 N = 4
 Alphabet = {"a", "b", "=", " ", "#", "!"}
 Marks = {"#", "!"}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
