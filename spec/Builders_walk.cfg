SPECIFICATION Spec
CONSTANTS
  Offer <- TwoOf
  Kinds = {"der", "ber", "berind"}
  Ids <- AllIds
  FirstSizes <- None
  MoreSizes <- PieceSizesT
  MaxPieces = 9
INVARIANTS
  HeaderFits
  Emit
CHECK_DEADLOCK FALSE
