SPECIFICATION Spec
INVARIANTS RoundTrip FormsAgree Emit
CONSTANTS
  TypeList <- TypesUnk
  MaxLen = 2
  Texts <- TextsQ
  InnerTexts <- InnerTextsQ
  Blobs <- BlobsQ
  InnerBlobs <- InnerBlobsQ
  Longs = {43}
  Hides = {0,1,2,3}
  WithForms = FALSE
CHECK_DEADLOCK FALSE
