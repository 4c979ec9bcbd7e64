SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Contexts = {"str", "string", "error"}
INVARIANTS
  Emit
CHECK_DEADLOCK FALSE
