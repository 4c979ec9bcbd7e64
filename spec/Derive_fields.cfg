SPECIFICATION Spec
INVARIANTS ComesBack OneElement AsItsField Emit
CONSTANTS
  Openings <- FieldOpenings
  FieldMenu <- FieldsQ
  MaxFields = 2
  VariantMenu <- None
  MaxVariants = 0
  ConvMenu <- None
  OuterMenu <- None
  StrangeIds <- NoIds
CHECK_DEADLOCK FALSE
