SPECIFICATION Spec
CONSTANTS
  Kinds = {"der", "ber", "berind"}
  Ids <- FewIds
  FirstSizes <- None
  MoreSizes <- PieceSizes
  MaxPieces = 3
INVARIANTS
  HeaderFits
  Emit
CHECK_DEADLOCK FALSE
