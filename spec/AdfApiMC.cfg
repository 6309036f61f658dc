SPECIFICATION Spec
CONSTANTS
  Modules = {"mark_zza", "zze"}
  Kinds = {"element", "alias", "imported"}
  MaxDefs = 2
INVARIANTS Fresh
PROPERTIES UpToDate
CHECK_DEADLOCK FALSE
