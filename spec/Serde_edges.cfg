SPECIFICATION Spec
INVARIANTS RoundTrip FormsAgree Emit
CONSTANTS
  TypeList <- TypesEdge
  MaxLen = 1
  Texts <- TextsQ
  InnerTexts <- EdgeTexts
  Blobs <- BlobsQ
  InnerBlobs <- InnerBlobsQ
  Longs = {2}
  Hides = {0,1,2,3}
  WithForms = FALSE
CHECK_DEADLOCK FALSE
