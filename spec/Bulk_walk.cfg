SPECIFICATION Spec
INVARIANTS SizesAreGrammar Emit
CONSTANTS
  Offer <- OneOf
  Kinds <- MostKinds
  Firsts <- FirstsT
  Portions <- WalkPortions
  MaxSteps = 3
CHECK_DEADLOCK FALSE
