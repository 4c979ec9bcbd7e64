SPECIFICATION Spec
INVARIANTS DerWithinBer Canonical Emit
CONSTRAINT Reducible
CONSTANTS
  TypeList <- TypesE
  Leaves <- Entries
  WrapIds <- Ids2
  MaxOps = 5
  MaxLeaves = 4
  MaxWidth = 4
  WithIndef = TRUE
CHECK_DEADLOCK FALSE
