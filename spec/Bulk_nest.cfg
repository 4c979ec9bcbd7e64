SPECIFICATION Spec
INVARIANTS SizesAreGrammar Emit
CONSTANTS
  Kinds <- SmallKinds
  Firsts <- FirstsQ
  Portions <- NestPortions
  MaxSteps = 2
CHECK_DEADLOCK FALSE
