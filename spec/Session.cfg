CONSTANT K = 16
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY Frame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
