CONSTANTS
  Regs = {"x"}
  Consts = {"a", "2a", "1/3b^2", "6"}
  Pows = {"2", "-1", "1/2"}
  MaxExp = 2
  MaxDen = 2
  Target = {"x"}
SPECIFICATION Spec
VIEW View
INVARIANTS Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
