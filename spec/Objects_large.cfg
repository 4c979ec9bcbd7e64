SPECIFICATION Spec
CONSTANTS
  Kinds = {"der", "ber", "berind"}
  Slots = 1
  InitIds <- OneId
  InitSizes <- LargeInit
  Sizes <- LargeSizes
  Pokes = {"first"}
  Classes = {}
  Flags = {}
  Numbers <- None
  Copies = {}
  MaxOps = 2
INVARIANTS
  WellFormed
  IdMeans
  SegmentsSane
  Emit
PROPERTIES
  OthersUntouched
  OneComponent
CHECK_DEADLOCK FALSE
