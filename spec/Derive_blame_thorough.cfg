SPECIFICATION Spec
INVARIANTS Blamed Emit
CONSTANTS
  SeqProduct <- OneAtATime
  Product <- FewForms
  Outcome <- Located
  Openings <- BlameOpenings
  FieldMenu <- BlameFieldT
  MaxFields = 3
  VariantMenu <- None
  MaxVariants = 0
  ConvMenu <- None
  OuterMenu <- BlameOuters
  StrangeIds <- NoIds
CHECK_DEADLOCK FALSE
