SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY Kept
PROPERTY Steady
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
