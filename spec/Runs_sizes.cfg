SPECIFICATION Spec
CONSTANTS
  Modes = {"der", "ber"}
  OpenIds <- OpenIdSet
  PrimIds <- PrimIdSet
  Counts <- CountQ
  Sizes <- SizeT
  MaxTokens = 1
INVARIANTS
  RunsAreGrammar
  ConsumedWithinInput
  Emit
CHECK_DEADLOCK FALSE
