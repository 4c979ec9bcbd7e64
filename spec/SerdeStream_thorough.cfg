SPECIFICATION Spec
INVARIANTS InBounds Emit
PROPERTY Discipline
CONSTANTS
  Chunks <- ChunksT
  TypeList <- TypesT
  MaxChunks = 3
  MaxOps = 2
  Rules = {"ber", "der"}
CHECK_DEADLOCK FALSE
