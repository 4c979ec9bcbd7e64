SPECIFICATION Spec
INVARIANTS NoFalseSuccess Emit
CONSTANTS
  Items <- ItemsQ
  MaxFree = 7
CHECK_DEADLOCK FALSE
