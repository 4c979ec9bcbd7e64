SPECIFICATION Spec
INVARIANTS LeadsThere Emit
CONSTANTS
  TypeList <- Singles
  Before <- Lots
  After <- Ends
  MaxDepth = 3
  WithIndef = TRUE
CHECK_DEADLOCK FALSE
