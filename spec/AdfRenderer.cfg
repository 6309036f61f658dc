SPECIFICATION Spec
CONSTANTS
  PROPS <- EnvProps
  SIZE <- EnvSize
  WS = {" ", "\t", "\n"}
  LB = {}
INVARIANTS Denotes Contained FailFast TextKept LineStructure
CHECK_DEADLOCK FALSE
