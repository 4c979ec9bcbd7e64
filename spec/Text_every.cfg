SPECIFICATION Spec
CONSTANTS
  Alphabet <- Every
  MaxOctets = 2
  After <- Two
INVARIANTS
  Agree
  Emit
CHECK_DEADLOCK FALSE
