SPECIFICATION Spec
INVARIANTS RoundTrip FormsAgree Emit
CONSTANTS
  TypeList <- TypesFormsDeep
  MaxLen = 2
  Texts <- TextsQ
  InnerTexts <- InnerTextsQ
  Blobs <- BlobsQ
  InnerBlobs <- InnerBlobsQ
  Longs = {}
  Hides = {0}
  WithForms = TRUE
CHECK_DEADLOCK FALSE
