CONSTANTS
  Names = {"a", "b", "ab"}
  Regs = {"g", "h"}
  Deep = 1
SPECIFICATION Spec
VIEW View
INVARIANTS Partition OrderFree
PROPERTIES NoLoss NoSplit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
