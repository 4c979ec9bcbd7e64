SPECIFICATION Spec
CONSTANTS
  Kinds = {"der", "ber", "berind"}
  Slots = 1
  InitIds <- InPlaceIds
  InitSizes <- FewSizes
  Sizes <- None
  Pokes = {"last"}
  Classes = {0, 1, 2, 3}
  Flags = {0, 1}
  Numbers <- None
  Copies = {}
  MaxOps = 3
INVARIANTS
  WellFormed
  IdMeans
  SegmentsSane
  Emit
PROPERTIES
  OthersUntouched
  OneComponent
CHECK_DEADLOCK FALSE
