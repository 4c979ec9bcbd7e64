SPECIFICATION Spec
INVARIANTS DerWithinBer Canonical Emit
CONSTRAINT Reducible
CONSTANTS
  TypeList <- TypesE
  Leaves <- Entries
  WrapIds <- Ids2
  MaxOps = 4
  MaxLeaves = 3
  MaxWidth = 3
  WithIndef = TRUE
CHECK_DEADLOCK FALSE
