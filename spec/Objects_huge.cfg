SPECIFICATION Spec
CONSTANTS
  Kinds = {"der", "ber", "berind"}
  Slots = 1
  InitIds <- OneId
  InitSizes <- HugeInit
  Sizes <- HugeSizes
  Pokes = {}
  Classes = {}
  Flags = {}
  Numbers <- None
  Copies = {}
  MaxOps = 1
INVARIANTS
  WellFormed
  IdMeans
  SegmentsSane
  Emit
PROPERTIES
  OthersUntouched
  OneComponent
CHECK_DEADLOCK FALSE
