SPECIFICATION Spec
CONSTANTS
  Chunks <- ChunkSet
  MaxChunks = 4
  MaxOps = 5
  Parsers <- AllParsers
INVARIANTS
  InBounds
  DerWithinBer
  Emit
PROPERTIES
  Discipline
CHECK_DEADLOCK FALSE
