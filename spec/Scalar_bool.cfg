SPECIFICATION Spec
CONSTANTS
  Modes = {"bool"}
  Edge <- EdgeQ
  Runs <- RunQ
  FullDec = 2
  FullEnc = 2
INVARIANTS
  EncodeDecode
  DecodeEncode
  Monotone
  BoolAgree
  Emit
CHECK_DEADLOCK FALSE
