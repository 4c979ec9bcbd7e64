SPECIFICATION Spec
INVARIANTS InBounds Emit
PROPERTY Discipline
CONSTANTS
  Chunks <- ChunksQ
  TypeList <- TypesQ
  MaxChunks = 2
  MaxOps = 2
  Rules = {"ber", "der"}
CHECK_DEADLOCK FALSE
