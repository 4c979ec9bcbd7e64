SPECIFICATION Spec
INVARIANTS LeadsThere Emit
CONSTANTS
  Offer <- OneOf
  TypeList <- AllTypes
  Before <- Anywhere
  After <- Anywhere
  MaxDepth = 3
  WithIndef = TRUE
CHECK_DEADLOCK FALSE
