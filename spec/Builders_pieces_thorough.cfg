SPECIFICATION Spec
CONSTANTS
  Kinds = {"der", "ber", "berind"}
  Ids <- FewIds
  FirstSizes <- None
  MoreSizes <- PieceSizesT
  MaxPieces = 4
INVARIANTS
  HeaderFits
  Emit
CHECK_DEADLOCK FALSE
