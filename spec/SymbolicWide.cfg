CONSTANTS
  Operands = {"a","c3","x_y","2a","1/2b","-2a","4","12","3/14","0.25","-3","1"}
  Powers = {"^2","^-1","^3/2","^-1/2","^0.5","^+3","^0","^10","^1/12"}
  Bad = {"$","+"}
  Depth = 4
  Nest = 2
  Climb = FALSE
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
