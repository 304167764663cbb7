CONSTANTS
  Canonical = {"a", "b", "abc"}
  Aliases = {"c", "ab", "B", "x y", "a0"}
  None = "none"
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
