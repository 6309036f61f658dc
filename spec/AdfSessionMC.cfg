SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  Docs = {0, 1, 2}
  BadDocs = {0}
  COPIES = TRUE
INVARIANTS Isolated
CHECK_DEADLOCK FALSE
