SPECIFICATION Spec
INVARIANTS DerWithinBer Canonical Emit
CONSTRAINT Reducible
CONSTANTS
  TypeList <- TypesD
  Leaves <- Few
  WrapIds <- Ids2
  MaxOps = 5
  MaxLeaves = 3
  MaxWidth = 3
  WithIndef = TRUE
CHECK_DEADLOCK FALSE
