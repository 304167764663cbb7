CONSTANTS
  Customs = {"first"}
  AxisCustoms = {"first"}
  Writes = {"open w", "open a", "open x", "open r+", "mode=w", "open wb", "write_text", "write_bytes", "derived", "data", "attribute", "new x", "new xb", "new text", "sibling"}
SPECIFICATION Spec
VIEW Sees
INVARIANTS DiskKept SameFile
PROPERTIES OneChanges NoForget OpenKeeps
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
