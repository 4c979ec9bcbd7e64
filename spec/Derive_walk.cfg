SPECIFICATION Spec
INVARIANTS ComesBack OneElement AsItsField Emit
CONSTANTS
  Offer <- OneOf
  SeqProduct <- OneAtATime
  Product <- FewForms
  Openings <- WalkOpenings
  FieldMenu <- WalkField
  MaxFields = 5
  VariantMenu <- WalkVariant
  MaxVariants = 4
  ConvMenu <- None
  OuterMenu <- WalkOuter
  StrangeIds <- NoIds
CHECK_DEADLOCK FALSE
