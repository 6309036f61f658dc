SPECIFICATION Spec
CONSTANTS
  ATOMIC = TRUE
INVARIANTS Complete Emit
CHECK_DEADLOCK FALSE
