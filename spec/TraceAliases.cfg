CONSTANTS
  Names = {}
  Vals = {}
  Regs = {"m", "n", "k"}
SPECIFICATION TraceSpec
INVARIANTS Disjoint AliasesAgree
POSTCONDITION Done
CHECK_DEADLOCK FALSE
