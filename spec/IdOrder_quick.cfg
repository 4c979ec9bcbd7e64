SPECIFICATION Spec
CONSTANTS
  Ids <- Ids1
INVARIANTS
  EqualMeansSame
  DifferentIsOrdered
  Emit
CHECK_DEADLOCK FALSE
