SPECIFICATION Spec
INVARIANTS Blamed Emit
CONSTANTS
  SeqProduct <- OneAtATime
  Product <- FewForms
  Outcome <- Located
  Openings <- BlameOpenings
  FieldMenu <- BlameField
  MaxFields = 2
  VariantMenu <- None
  MaxVariants = 0
  ConvMenu <- None
  OuterMenu <- FewOuters
  StrangeIds <- NoIds
CHECK_DEADLOCK FALSE
