SPECIFICATION Spec
INVARIANTS LeadsThere Emit
CONSTANTS
  TypeList <- Nested
  Before <- Few
  After <- Ends
  MaxDepth = 3
  WithIndef = TRUE
CHECK_DEADLOCK FALSE
