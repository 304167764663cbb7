CONSTANTS
  Names = {"a", "b", "c", "d"}
  Vals = {1, 2}
  Regs = {"m"}
SPECIFICATION Spec
VIEW View
INVARIANTS Disjoint AliasesAgree
PROPERTIES Isolation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
