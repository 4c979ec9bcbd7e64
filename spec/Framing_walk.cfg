SPECIFICATION Spec
CONSTANTS
  Offer <- TwoOf
  Shortcuts <- Yes
  Modes = {"ber", "der"}
  Id1Set <- Mostly
  Id2Set <- AllOctets
  IdNSet <- AllOctets
  Len1Set <- WalkLens
  Len2Set <- WalkLens2
  LenNSet <- AllOctets
  KeyIds <- AllOctets
  KeyLens <- AllOctets
  Fills <- WalkFills
  MaxBody = 300
  MaxTlv = 14
  MaxIdExtra = 6
INVARIANTS
  MachineIsGrammar
  NothingDecidedEarly
  TopHeader
  ValueShape
  DepthSane
  Emit
CONSTRAINT Going
CHECK_DEADLOCK FALSE
