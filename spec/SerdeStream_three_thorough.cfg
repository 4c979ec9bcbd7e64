SPECIFICATION Spec
INVARIANTS InBounds Emit
PROPERTY Discipline
CONSTANTS
  Chunks <- ChunksQ
  TypeList <- TypesQ
  MaxChunks = 3
  MaxOps = 3
  Rules = {"ber", "der"}
CHECK_DEADLOCK FALSE
