SPECIFICATION Spec
CONSTANTS
  Modes = {"parse", "build", "cmp"}
  FirstSet <- AllOctets
  SecondSet <- AllOctets
  MoreSet <- MoreOctets
  FullCount = 5
  FullBits = 18
  BitRuns <- BitRunSet
  BitRuns2 <- BitRunSet
  Reps <- RepSet
INVARIANTS
  MachineIsParseLen
  AcceptedIsCanonical
  BuiltIsLossless
  Emit
CHECK_DEADLOCK FALSE
