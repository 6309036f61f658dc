SPECIFICATION Spec
CONSTANTS
  PROPS <- EnvProps
  SIZE <- EnvSize
INVARIANTS Outcome Denotes Warned Laws
CHECK_DEADLOCK FALSE
PROPERTIES Terminates
