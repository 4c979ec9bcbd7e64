SPECIFICATION Spec
CONSTANTS
  Modes = {"ber"}
  Id1Set <- NestIds
  Id2Set <- TailOne
  IdNSet <- None
  Len1Set <- NestLens
  Len2Set <- None
  LenNSet <- None
  KeyIds <- AllOctets
  KeyLens <- KeyLenSet
  Fills <- FillSet
  MaxBody = 4
  MaxTlv = 4
  MaxIdExtra = 0
INVARIANTS
  MachineIsGrammar
  NothingDecidedEarly
  TopHeader
  ValueShape
  DepthSane
  Emit
CHECK_DEADLOCK FALSE
