SPECIFICATION Spec
CONSTANTS
  Alphabet <- Edges
  MaxOctets = 5
  After <- Few
INVARIANTS
  Agree
  Emit
CHECK_DEADLOCK FALSE
