SPECIFICATION Spec
CONSTANTS
  Kinds = {"id"}
  Slots = 1
  InitIds <- IdStart
  InitSizes <- Zero
  Sizes <- None
  Pokes = {}
  Classes = {0, 1, 2, 3}
  Flags = {0, 1}
  Numbers <- FewNumbers
  Copies = {}
  MaxOps = 3
INVARIANTS
  WellFormed
  IdMeans
  SegmentsSane
  Emit
PROPERTIES
  OthersUntouched
  OneComponent
CHECK_DEADLOCK FALSE
