SPECIFICATION Spec
CONSTANTS
  Modes = {"parse", "build", "cmp"}
  FirstSet <- AllOctets
  SecondSet <- AllOctets
  MoreSet <- MoreOctets
  FullCount = 4
  FullBits = 12
  BitRuns <- BitRunSet
  BitRuns2 <- BitRun2Q
  Reps <- RepSet
INVARIANTS
  MachineIsParseLen
  AcceptedIsCanonical
  BuiltIsLossless
  Emit
CHECK_DEADLOCK FALSE
