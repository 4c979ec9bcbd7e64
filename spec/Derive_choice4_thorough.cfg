SPECIFICATION Spec
INVARIANTS ComesBack OneElement AsItsField Emit
CONSTANTS
  Openings <- ChoiceOpenings
  FieldMenu <- None
  MaxFields = 0
  VariantMenu <- ChoiceB
  MaxVariants = 4
  ConvMenu <- None
  OuterMenu <- None
  StrangeIds <- ChoiceIds
CHECK_DEADLOCK FALSE
