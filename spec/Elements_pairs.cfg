SPECIFICATION Spec
INVARIANTS DerWithinBer Canonical Emit
CONSTANTS
  TypeList <- TypesM
  Leaves <- Pairing
  WrapIds <- Ids2
  MaxOps = 7
  MaxLeaves = 4
  MaxWidth = 3
  WithIndef = FALSE
CHECK_DEADLOCK FALSE
