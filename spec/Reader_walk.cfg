SPECIFICATION Spec
CONSTANTS
  VeryLong <- Thousand
  Inputs <- WalkInputs
  MaxEvents = 40
  MaxEventsLong = 60
  ShortLen = 11
INVARIANTS
  NoOverRead
  ScheduleIndependent
  FailureSeen
  Emit
CONSTRAINT Going
CHECK_DEADLOCK FALSE
