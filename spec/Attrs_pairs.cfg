SPECIFICATION Spec
CONSTANTS
  Macros <- Both
  Places <- AllPlaces
  Menu <- UsualMenu
  MaxArgs = 2
  MaxSplits = 1
  MaxFields = 3
INVARIANTS
  Stable
  OrderFree
  Silence
  SkippedIsNothing
  Emit
CHECK_DEADLOCK FALSE
