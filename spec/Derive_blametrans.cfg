SPECIFICATION Spec
INVARIANTS Blamed Emit
CONSTANTS
  SeqProduct <- OneAtATime
  Product <- FewForms
  Outcome <- Located
  Openings <- BlameTransOpenings
  FieldMenu <- BlameTrans
  MaxFields = 2
  VariantMenu <- None
  MaxVariants = 0
  ConvMenu <- None
  OuterMenu <- None
  StrangeIds <- NoIds
CHECK_DEADLOCK FALSE
