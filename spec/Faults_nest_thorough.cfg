SPECIFICATION Spec
INVARIANTS LeadsThere Emit
CONSTANTS
  TypeList <- AllTypes
  Before <- Some4
  After <- Ends
  MaxDepth = 3
  WithIndef = TRUE
CHECK_DEADLOCK FALSE
