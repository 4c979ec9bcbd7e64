SPECIFICATION Spec
CONSTANTS
  Offer <- OneOf
  Kinds = {"der", "ber", "berind", "id", "con"}
  Slots = 2
  InitIds <- WalkIds
  InitSizes <- WalkInit
  Sizes <- WalkSizes
  Pokes = {"first", "middle", "last"}
  Classes = {0, 1, 2, 3}
  Flags = {0, 1}
  Numbers <- WalkNumbers
  Copies = {"clone", "owned", "vec", "bytes", "into"}
  MaxOps = 12
INVARIANTS
  SegmentsSane
  Emit
CHECK_DEADLOCK FALSE
