SPECIFICATION Spec
CONSTANTS
  Offer <- Many
  Alphabet <- WalkAlphabet
  MaxOctets = 12
  After <- Two
INVARIANTS
  Agree
  Emit
CHECK_DEADLOCK FALSE
