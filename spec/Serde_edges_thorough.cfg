SPECIFICATION Spec
INVARIANTS RoundTrip FormsAgree Emit
CONSTANTS
  TypeList <- TypesEdge
  MaxLen = 2
  Texts <- TextsQ
  InnerTexts <- EdgeTextsT
  Blobs <- BlobsQ
  InnerBlobs <- InnerBlobsQ
  Longs = {2}
  Hides = {0,3}
  WithForms = FALSE
CHECK_DEADLOCK FALSE
