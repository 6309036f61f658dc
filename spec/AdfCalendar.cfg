SPECIFICATION Spec
CONSTANTS
  WS = {" "}
  LB = {}
INVARIANTS Right LastDay
CHECK_DEADLOCK FALSE
