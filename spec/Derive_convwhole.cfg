SPECIFICATION Spec
INVARIANTS ComesBack OneElement AsItsField Emit
CONSTANTS
  Openings <- WholeOpenings
  FieldMenu <- WholeFields
  MaxFields = 2
  VariantMenu <- WholeVariants
  MaxVariants = 2
  ConvMenu <- ConvMenuS
  OuterMenu <- Outers
  StrangeIds <- NoIds
CHECK_DEADLOCK FALSE
