SPECIFICATION Spec
CONSTANTS
  Modes = {"parse", "build"}
  FirstSet <- AllOctets
  SecondSet <- AllOctets
  MoreSet <- MoreOctets
  MaxMore = 3
  RunSet <- RunOctetSet
  RunFirst <- RunFirstSet
  RunSecond <- RunSecondSet
  RunLens <- RunLenSet
  AfterRun <- MoreOctets
  BitRuns2 <- BitRunSet
  FullBits = 17
  BitRuns <- BitRunSet
INVARIANTS
  MachineIsParseId
  AcceptedIsCanonical
  BuiltIsLossless
  Emit
CHECK_DEADLOCK FALSE
