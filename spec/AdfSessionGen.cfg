SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Docs = {0, 1}
  BadDocs = {0}
  COPIES = TRUE
INVARIANTS Isolated Emit
CHECK_DEADLOCK FALSE
