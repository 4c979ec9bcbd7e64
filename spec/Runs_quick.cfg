SPECIFICATION Spec
CONSTANTS
  Modes = {"der", "ber"}
  OpenIds <- OpenIdSet
  PrimIds <- PrimIdSet
  Counts <- CountQ
  Sizes <- SizeQ
  MaxTokens = 2
INVARIANTS
  RunsAreGrammar
  ConsumedWithinInput
  Emit
CHECK_DEADLOCK FALSE
