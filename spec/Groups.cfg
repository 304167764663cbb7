CONSTANTS
  Names = {"a", "b", "ab", "A"}
  Regs = {"g"}
  Deep = 2
SPECIFICATION Spec
VIEW View
INVARIANTS Partition OrderFree
PROPERTIES NoLoss NoSplit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
