SPECIFICATION Spec
CONSTANTS
  Kinds = {"der", "ber", "berind", "id", "con"}
  Slots = 2
  InitIds <- PlainIds
  InitSizes <- CopySizes
  Sizes <- TinySizes
  Pokes = {"first"}
  Classes = {1}
  Flags = {1}
  Numbers <- FewNumbers
  Copies = {"clone", "owned", "vec", "bytes", "into"}
  MaxOps = 3
INVARIANTS
  WellFormed
  IdMeans
  SegmentsSane
  Emit
PROPERTIES
  OthersUntouched
  OneComponent
CHECK_DEADLOCK FALSE
