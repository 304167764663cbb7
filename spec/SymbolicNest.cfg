CONSTANTS
  Operands = {"a","b","2a","12"}
  Powers = {"^2","^-1","^1"}
  Bad = {}
  Depth = 64
  Nest = 10
  Climb = TRUE
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
