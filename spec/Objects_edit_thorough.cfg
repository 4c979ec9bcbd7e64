SPECIFICATION Spec
CONSTANTS
  Kinds = {"der", "ber", "berind"}
  Slots = 1
  InitIds <- PlainIds
  InitSizes <- ThoroughSizes
  Sizes <- ThoroughSizes
  Pokes = {"first", "last"}
  Classes = {1}
  Flags = {1}
  Numbers <- None
  Copies = {}
  MaxOps = 3
INVARIANTS
  WellFormed
  IdMeans
  SegmentsSane
  Emit
PROPERTIES
  OthersUntouched
  OneComponent
CHECK_DEADLOCK FALSE
