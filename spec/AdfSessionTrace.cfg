SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Docs = {}
  BadDocs = {}
  COPIES = TRUE
INVARIANTS Isolated
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
