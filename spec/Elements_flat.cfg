SPECIFICATION Spec
INVARIANTS DerWithinBer Canonical Emit
CONSTRAINT Reducible
CONSTANTS
  TypeList <- TypesD
  Leaves <- AllLeaves
  WrapIds <- Ids1
  MaxOps = 3
  MaxLeaves = 1
  MaxWidth = 1
  WithIndef = TRUE
CHECK_DEADLOCK FALSE
