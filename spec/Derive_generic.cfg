SPECIFICATION Spec
INVARIANTS ComesBack OneElement AsItsField Emit
CONSTANTS
  Openings <- GenAll
  FieldMenu <- GenFields
  MaxFields = 2
  VariantMenu <- GenVariants
  MaxVariants = 2
  ConvMenu <- None
  OuterMenu <- None
  StrangeIds <- NoIds
CHECK_DEADLOCK FALSE
