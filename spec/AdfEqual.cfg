SPECIFICATION Spec
CONSTANTS
  PROPS <- EnvProps
  SIZE <- EnvSize
INVARIANTS Meaning
CHECK_DEADLOCK FALSE
