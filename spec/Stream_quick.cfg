SPECIFICATION Spec
CONSTANTS
  Chunks <- ChunkSet
  MaxChunks = 3
  MaxOps = 4
  Parsers <- AllParsers
INVARIANTS
  InBounds
  DerWithinBer
  Emit
PROPERTIES
  Discipline
CHECK_DEADLOCK FALSE
