CONSTANTS
  Names = {"a", "b", "c"}
  Vals = {1, 2}
  Regs = {"m", "n"}
SPECIFICATION Spec
VIEW View
INVARIANTS Disjoint AliasesAgree
PROPERTIES Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
