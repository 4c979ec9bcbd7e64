SPECIFICATION Spec
INVARIANTS LeadsThere Emit
CONSTANTS
  TypeList <- Big
  Before <- Hundreds
  After <- One
  MaxDepth = 3
  WithIndef = FALSE
CHECK_DEADLOCK FALSE
