SPECIFICATION Spec
CONSTANTS
  Kinds = {"der", "ber", "berind", "id", "con"}
  Slots = 2
  InitIds <- PlainIds
  InitSizes <- CopySizes
  Sizes <- TinySizes
  Pokes = {"first", "last"}
  Classes = {1}
  Flags = {}
  Numbers <- FewNumbers
  Copies = {"clone", "owned", "vec", "bytes", "into"}
  MaxOps = 4
INVARIANTS
  WellFormed
  IdMeans
  SegmentsSane
  Emit
PROPERTIES
  OthersUntouched
  OneComponent
CHECK_DEADLOCK FALSE
