SPECIFICATION Spec
CONSTANTS
  Offer <- TwoOf
  Chunks <- WalkChunks
  MaxChunks = 8
  MaxOps = 8
  Parsers <- AllParsers
INVARIANTS
  InBounds
  DerWithinBer
  Emit
CHECK_DEADLOCK FALSE
