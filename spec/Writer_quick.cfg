SPECIFICATION Spec
INVARIANTS NoFalseSuccess Emit
CONSTANTS
  Items <- ItemsQ
  MaxFree = 4
CHECK_DEADLOCK FALSE
