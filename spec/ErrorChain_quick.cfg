SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Contexts = {"str", "string", "error"}
INVARIANTS
  Emit
PROPERTIES
  CauseKept
CHECK_DEADLOCK FALSE
