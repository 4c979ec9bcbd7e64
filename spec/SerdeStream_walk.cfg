SPECIFICATION Spec
INVARIANTS InBounds Emit
CONSTANTS
  Offer <- TwoOf
  Chunks <- WalkChunks
  TypeList <- WalkTypes
  MaxChunks = 6
  MaxOps = 7
  Rules = {"ber", "der"}
CHECK_DEADLOCK FALSE
