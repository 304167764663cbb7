CONSTANTS
  Regs = {"x", "y"}
  Consts = {"a", "2a", "6"}
  Pows = {"-1", "2"}
  MaxExp = 1
  MaxDen = 1
  Target = {"x", "y"}
SPECIFICATION Spec
VIEW View
INVARIANTS Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
