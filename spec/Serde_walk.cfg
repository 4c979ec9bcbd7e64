SPECIFICATION Spec
INVARIANTS RoundTrip FormsAgree Emit
CONSTANTS
  Patterns <- WalkPatterns
  FewPatterns <- WalkPatterns
  SeqsOf <- WalkSeqs
  Offer <- OneOf
  TypeList <- TypesQ
  MaxLen = 9
  Texts <- WalkTexts
  InnerTexts <- WalkTexts
  Blobs <- WalkBlobs
  InnerBlobs <- WalkBlobs
  Longs = {42, 43, 128}
  Hides = {0}
  WithForms = FALSE
CHECK_DEADLOCK FALSE
