CONSTANTS
  Operands = {"a","b","2a","4"}
  Powers = {"^2","^-1/2"}
  Bad = {"&"}
  Depth = 7
  Nest = 4
  Climb = FALSE
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
