SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Contexts = {"str", "string", "error"}
INVARIANTS
  Emit
PROPERTIES
  CauseKept
CHECK_DEADLOCK FALSE
