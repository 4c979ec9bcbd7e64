SPECIFICATION Spec
CONSTANTS
  Modes = {"enc", "dec"}
  Edge <- EdgeT
  Runs <- RunT
  FullDec = 2
  FullEnc = 2
INVARIANTS
  EncodeDecode
  DecodeEncode
  Monotone
  BoolAgree
  Emit
CHECK_DEADLOCK FALSE
