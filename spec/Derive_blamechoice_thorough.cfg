SPECIFICATION Spec
INVARIANTS Blamed Emit
CONSTANTS
  SeqProduct <- OneAtATime
  Product <- FewForms
  Outcome <- Located
  Openings <- ChoiceOpenings
  FieldMenu <- None
  MaxFields = 0
  VariantMenu <- BlameVariants
  MaxVariants = 2
  ConvMenu <- None
  OuterMenu <- BlameOuters
  StrangeIds <- NoIds
CHECK_DEADLOCK FALSE
