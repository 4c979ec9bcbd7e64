SPECIFICATION Spec
CONSTANTS
  Offer <- TwoOf
  Modes = {"parse", "build"}
  FirstSet <- Counts
  SecondSet <- AllOctets
  MoreSet <- AllOctets
  FullCount = 8
  FullBits = 64
  BitRuns <- BitRunSet
  BitRuns2 <- BitRun2Q
  Reps <- RepSet
INVARIANTS
  MachineIsParseLen
  AcceptedIsCanonical
  BuiltIsLossless
  Emit
CHECK_DEADLOCK FALSE
