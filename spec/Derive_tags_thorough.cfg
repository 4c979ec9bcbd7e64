SPECIFICATION Spec
INVARIANTS ComesBack OneElement AsItsField Emit
CONSTANTS
  Openings <- TagOpeningsT
  FieldMenu <- TagField
  MaxFields = 1
  VariantMenu <- None
  MaxVariants = 0
  ConvMenu <- None
  OuterMenu <- None
  StrangeIds <- TagIds
CHECK_DEADLOCK FALSE
