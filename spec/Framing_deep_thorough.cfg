SPECIFICATION Spec
CONSTANTS
  Modes = {"ber"}
  Id1Set <- NestIds2
  Id2Set <- TailOne
  IdNSet <- None
  Len1Set <- NestLens3
  Len2Set <- None
  LenNSet <- None
  KeyIds <- AllOctets
  KeyLens <- KeyLenSet
  Fills <- FillOne
  MaxBody = 4
  MaxTlv = 8
  MaxIdExtra = 0
INVARIANTS
  MachineIsGrammar
  NothingDecidedEarly
  TopHeader
  ValueShape
  DepthSane
  Emit
CHECK_DEADLOCK FALSE
