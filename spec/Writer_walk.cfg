SPECIFICATION Spec
INVARIANTS NoFalseSuccess Emit
CONSTANTS
  Items <- ItemsQ
  MaxFree = 1000
CONSTRAINT Going
CHECK_DEADLOCK FALSE
