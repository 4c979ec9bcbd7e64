SPECIFICATION Spec
INVARIANTS DerWithinBer Canonical Emit
CONSTRAINT Reducible
CONSTANTS
  TypeList <- TypesD
  Leaves <- Few
  WrapIds <- Ids2
  MaxOps = 4
  MaxLeaves = 2
  MaxWidth = 2
  WithIndef = TRUE
CHECK_DEADLOCK FALSE
