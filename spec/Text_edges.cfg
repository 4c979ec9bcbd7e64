SPECIFICATION Spec
CONSTANTS
  Alphabet <- Edges
  MaxOctets = 4
  After <- Two
INVARIANTS
  Agree
  Emit
CHECK_DEADLOCK FALSE
