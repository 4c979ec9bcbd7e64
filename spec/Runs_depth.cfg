SPECIFICATION Spec
CONSTANTS
  Modes = {"der", "ber"}
  OpenIds <- OpenIdSet
  PrimIds <- PrimIdSet
  Counts <- CountD
  Sizes <- SizeN
  MaxTokens = 3
INVARIANTS
  RunsAreGrammar
  ConsumedWithinInput
  Emit
CHECK_DEADLOCK FALSE
