SPECIFICATION Spec
CONSTANTS
  Macros <- Both
  Places <- MainPlaces
  Menu <- UsualMenu
  MaxArgs = 3
  MaxSplits = 1
  MaxFields = 4
INVARIANTS
  Stable
  OrderFree
  Silence
  SkippedIsNothing
  Emit
CHECK_DEADLOCK FALSE
