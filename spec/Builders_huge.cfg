SPECIFICATION Spec
CONSTANTS
  Kinds = {"der", "ber", "berind"}
  Ids <- FewIds
  FirstSizes <- HugeSizes
  MoreSizes <- None
  MaxPieces = 1
INVARIANTS
  HeaderFits
  Emit
CHECK_DEADLOCK FALSE
