SPECIFICATION Spec
INVARIANTS ComesBack OneElement AsItsField Emit
CONSTANTS
  Openings <- ConvFieldOpenings
  FieldMenu <- ConvField
  MaxFields = 3
  VariantMenu <- None
  MaxVariants = 0
  ConvMenu <- None
  OuterMenu <- None
  StrangeIds <- NoIds
CHECK_DEADLOCK FALSE
