CONSTANTS
  Group = "derived"
  Rich = TRUE
INIT Init
NEXT Next
INVARIANTS ObserveLaws Statics
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
