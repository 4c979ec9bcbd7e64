SPECIFICATION Spec
CONSTANTS
  Offer <- TwoOf
  Modes = {"enc", "dec"}
  Edge <- EdgeT
  Runs = {}
  FullDec = 18
  FullEnc = 16
INVARIANTS
  EncodeDecode
  DecodeEncode
  Monotone
  BoolAgree
  Emit
CHECK_DEADLOCK FALSE
