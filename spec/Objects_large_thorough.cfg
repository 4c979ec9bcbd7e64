SPECIFICATION Spec
CONSTANTS
  Kinds = {"der", "ber", "berind"}
  Slots = 1
  InitIds <- PlainIds
  InitSizes <- LargeInit
  Sizes <- LargeSizes
  Pokes = {"first"}
  Classes = {}
  Flags = {}
  Numbers <- None
  Copies = {}
  MaxOps = 3
INVARIANTS
  WellFormed
  IdMeans
  SegmentsSane
  Emit
PROPERTIES
  OthersUntouched
  OneComponent
CHECK_DEADLOCK FALSE
