SPECIFICATION Spec
INVARIANTS SizesAreGrammar Emit
CONSTANTS
  Kinds <- MostKinds
  Firsts <- FirstsT
  Portions <- PortionsT
  MaxSteps = 2
CHECK_DEADLOCK FALSE
