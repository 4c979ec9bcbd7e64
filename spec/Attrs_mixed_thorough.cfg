SPECIFICATION Spec
CONSTANTS
  Macros <- Both
  Places <- MainPlaces
  Menu <- MixedMenu
  MaxArgs = 2
  MaxSplits = 1
  MaxFields = 4
INVARIANTS
  Stable
  OrderFree
  Silence
  SkippedIsNothing
  Emit
CHECK_DEADLOCK FALSE
