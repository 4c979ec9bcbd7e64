SPECIFICATION Spec
CONSTANTS
  Inputs <- InputSet
  MaxEvents = 7
  MaxEventsLong = 3
  ShortLen = 11
INVARIANTS
  NoOverRead
  ScheduleIndependent
  FailureSeen
  Emit
CHECK_DEADLOCK FALSE
