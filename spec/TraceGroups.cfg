CONSTANTS
  Names = {}
  Regs = {"g", "h", "i"}
  Deep = 1
SPECIFICATION TraceSpec
INVARIANTS Partition
POSTCONDITION Done
CHECK_DEADLOCK FALSE
