SPECIFICATION Spec
INVARIANTS RoundTrip FormsAgree Emit
CONSTANTS
  TypeList <- TypesQ
  MaxLen = 3
  Texts <- TextsT
  InnerTexts <- InnerTextsQ
  Blobs <- BlobsQ
  InnerBlobs <- InnerBlobsQ
  Longs = {42, 43, 63, 64, 85, 86, 127, 128, 255, 256, 22000}
  Hides = {0}
  WithForms = FALSE
CHECK_DEADLOCK FALSE
