CONSTANTS
  Operands = {"a","b","c3","x_y","2a","6a","1/2b","1.5b","12","3/14","0.25","1","1e-7","35000a","-1/4096"}
  Powers = {"^2","^3","^-1","^3/2","^-1/2","^0.5","^-2","^1","^-7/48","^0.078125","^5/64"}
  Bad = {}
  Depth = 28
  Nest = 4
  Climb = FALSE
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
