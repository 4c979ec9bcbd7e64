SPECIFICATION Spec
CONSTANTS
  Offer <- TwoOf
  Modes = {"parse", "build"}
  FirstSet <- Escapes
  SecondSet <- AllOctets
  MoreSet <- AllOctets
  MaxMore = 30
  RunSet = {}
  RunFirst <- AllOctets
  RunSecond <- AllOctets
  RunLens <- RunLenSet
  AfterRun <- AllOctets
  BitRuns2 <- BitRun2Q
  FullBits = 128
  BitRuns <- BitRunSet
INVARIANTS
  MachineIsParseId
  AcceptedIsCanonical
  BuiltIsLossless
  Emit
CHECK_DEADLOCK FALSE
