SPECIFICATION Spec
INVARIANTS Blamed Emit
CONSTANTS
  Offer <- OneOf
  SeqProduct <- OneAtATime
  Product <- FewForms
  Outcome <- Located
  Openings <- WalkOpenings
  FieldMenu <- WalkField
  MaxFields = 5
  VariantMenu <- WalkVariant
  MaxVariants = 4
  ConvMenu <- None
  OuterMenu <- WalkOuter
  StrangeIds <- NoIds
CHECK_DEADLOCK FALSE
