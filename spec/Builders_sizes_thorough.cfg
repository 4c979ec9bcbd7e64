SPECIFICATION Spec
CONSTANTS
  Kinds = {"der", "ber", "berind"}
  Ids <- AllIds
  FirstSizes <- SizesT
  MoreSizes <- None
  MaxPieces = 1
INVARIANTS
  HeaderFits
  Emit
CHECK_DEADLOCK FALSE
