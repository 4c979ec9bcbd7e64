SPECIFICATION Spec
CONSTANTS
  Modes = {"parse", "build"}
  FirstSet <- AllOctets
  SecondSet <- AllOctets
  MoreSet <- MoreOctets
  MaxMore = 2
  RunSet <- RunOctetSet
  RunFirst <- RunFirstSet
  RunSecond <- RunSecondSet
  RunLens <- RunLenSet
  AfterRun <- AfterRunQ
  BitRuns2 <- BitRun2Q
  FullBits = 12
  BitRuns <- BitRunSet
INVARIANTS
  MachineIsParseId
  AcceptedIsCanonical
  BuiltIsLossless
  Emit
CHECK_DEADLOCK FALSE
