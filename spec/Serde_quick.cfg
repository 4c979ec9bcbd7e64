SPECIFICATION Spec
INVARIANTS RoundTrip FormsAgree Emit
CONSTANTS
  TypeList <- TypesQ
  MaxLen = 2
  Texts <- TextsQ
  InnerTexts <- InnerTextsQ
  Blobs <- BlobsQ
  InnerBlobs <- InnerBlobsQ
  Longs = {42, 43, 128}
  Hides = {0}
  WithForms = FALSE
CHECK_DEADLOCK FALSE
