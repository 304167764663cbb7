CONSTANTS
 N = 3
 A = 2
 Size = 2
INIT Init
NEXT Next
VIEW View
INVARIANT Sound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
