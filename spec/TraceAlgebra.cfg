CONSTANTS
  Regs = {"x", "y", "z"}
  Consts = {}
  Pows = {}
  MaxExp = 1
  MaxDen = 1
  Target = {}
SPECIFICATION TraceSpec
INVARIANTS Laws
POSTCONDITION Done
CHECK_DEADLOCK FALSE
