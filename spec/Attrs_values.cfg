SPECIFICATION Spec
CONSTANTS
  Macros <- Both
  Places <- AllPlaces
  Menu <- ValuesMenu
  MaxArgs = 1
  MaxSplits = 1
  MaxFields = 0
INVARIANTS
  Stable
  OrderFree
  Silence
  SkippedIsNothing
  Emit
CHECK_DEADLOCK FALSE
