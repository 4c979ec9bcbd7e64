SPECIFICATION Spec
CONSTANTS
  Inputs <- InputSet
  MaxEvents = 4
  MaxEventsLong = 2
  ShortLen = 11
INVARIANTS
  NoOverRead
  ScheduleIndependent
  FailureSeen
  Emit
CHECK_DEADLOCK FALSE
