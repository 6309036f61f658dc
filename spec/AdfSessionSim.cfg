SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Docs = {0, 1, 2, 3, 4, 5}
  BadDocs = {0, 1, 2}
  COPIES = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
