SPECIFICATION Spec
INVARIANTS SizesAreGrammar Emit
CONSTANTS
  Kinds <- MostKinds
  Firsts <- FirstsQ
  Portions <- PortionsQ
  MaxSteps = 2
CHECK_DEADLOCK FALSE
