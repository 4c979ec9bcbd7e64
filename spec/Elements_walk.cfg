SPECIFICATION Spec
INVARIANTS DerWithinBer Canonical Emit
CONSTRAINT Reducible
CONSTANTS
  Offer <- OneOf
  TypeList <- TypesD
  Leaves <- WalkLeaves
  WrapIds <- Ids2
  MaxOps = 14
  MaxLeaves = 10
  MaxWidth = 4
  WithIndef = TRUE
CHECK_DEADLOCK FALSE
