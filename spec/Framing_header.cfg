SPECIFICATION Spec
CONSTANTS
  Modes = {"der", "ber"}
  Id1Set <- AllOctets
  Id2Set <- IdTail
  IdNSet <- IdTailN
  Len1Set <- AllOctets
  Len2Set <- LenTail
  LenNSet <- Zero
  KeyIds <- KeyIdSet
  KeyLens <- KeyLenSet
  Fills <- FillSet
  MaxBody = 260
  MaxTlv = 1
  MaxIdExtra = 1
INVARIANTS
  MachineIsGrammar
  NothingDecidedEarly
  TopHeader
  ValueShape
  DepthSane
  Emit
CHECK_DEADLOCK FALSE
