-------------------------------- MODULE Reader --------------------------------
(***************************************************************************)
(* Parsing from a reader.  The environment decides how the octets arrive:  *)
(* before each octet it may interrupt the read, end the current delivery   *)
(* (a short read), or fail for good.  The parser sees octets only, so the  *)
(* outcome is that of the grammar unless the failure lies inside what has  *)
(* to be read.                                                             *)
(***************************************************************************)
EXTENDS Octets, TLC, Json

CONSTANTS
  Inputs,       \* set of <<mode, octets>>
  MaxEvents,    \* interrupts and short reads per behaviour, for short inputs
  MaxEventsLong,\* the same for inputs of more than ShortLen octets
  ShortLen

VARIABLES
  mode, data,   \* what is parsed
  exam,         \* octets that have to be seen before the outcome is known
  pos,          \* octets delivered
  sched,        \* how they were delivered
  events, fail, done

vars == <<mode, data, exam, pos, sched, events, fail, done>>

VeryLong == 40

ParseAny(m, s) ==
  CASE m = "id" -> ParseId(s) [] m = "len" -> ParseLen(s) [] m = "der" -> ParseDer(s) [] m = "ber" -> ParseBer(s)

\* How many octets have to be seen before the outcome is known; one more than there are when
\* the end of the input has to be seen.
RECURSIVE ExaminedFrom(_, _, _)
ExaminedFrom(m, s, p) ==
  IF p > Len(s) THEN Len(s) + 1
  ELSE IF ParseAny(m, Take(s, p)) # Err(Unterminated) THEN p
  ELSE ExaminedFrom(m, s, p + 1)
Examined(m, s) == ExaminedFrom(m, s, 0)

Limit == IF Len(data) > VeryLong THEN 1 ELSE IF Len(data) > ShortLen THEN MaxEventsLong ELSE MaxEvents

Init ==
  /\ \E x \in Inputs : mode = x[1] /\ data = x[2] /\ exam = Examined(x[1], x[2])
  /\ pos = 0 /\ sched = <<>> /\ events = 0 /\ fail = -1 /\ done = FALSE

\* The octet at pos is delivered after i interrupts, in a new delivery if cut = 1.
Deliver(i, cut) ==
  /\ ~done /\ pos < Len(data)
  /\ events + i + cut <= Limit
  /\ sched' = Append(sched, <<i, cut>>)
  /\ events' = events + i + cut
  /\ pos' = pos + 1
  /\ done' = (pos + 1 >= exam)
  /\ UNCHANGED <<mode, data, exam, fail>>

\* The end of the input is seen.
DeliverEnd(i) ==
  /\ ~done /\ pos = Len(data)
  /\ events + i <= Limit
  /\ sched' = Append(sched, <<i, 1>>)
  /\ events' = events + i
  /\ done' = TRUE
  /\ UNCHANGED <<mode, data, exam, pos, fail>>

FailHere(i) ==
  /\ ~done
  /\ events + i <= Limit
  /\ sched' = Append(sched, <<i, 1>>)
  /\ events' = events + i
  /\ fail' = pos /\ done' = TRUE
  /\ UNCHANGED <<mode, data, exam, pos>>

\* The reader would fail later, but the parser never asks for more.
FailUnseen ==
  /\ done /\ fail = -1 /\ pos = exam
  /\ fail' = pos
  /\ UNCHANGED <<mode, data, exam, pos, sched, events, done>>

Next ==
  \/ \E i \in 0..2, cut \in 0..1 : Deliver(i, cut)
  \/ \E i \in 0..2 : DeliverEnd(i) \/ FailHere(i)
  \/ FailUnseen

Spec == Init /\ [][Next]_vars

Outcome ==
  IF fail >= 0 /\ fail < exam THEN Err("Io") ELSE ParseAny(mode, data)

\* The octets taken are those of the element, never more.
NoOverRead == done /\ IsOk(Outcome) => pos = Outcome.n
\* Delivery does not matter.
ScheduleIndependent == done /\ fail = -1 => Outcome = ParseAny(mode, data)
FailureSeen == done /\ fail >= 0 /\ fail < exam => Outcome.res = "Io"

Emit == done =>
  PrintT("C " \o ToJson([k |-> "rd", m |-> mode, in |-> data, sched |-> sched, fail |-> fail,
    res |-> Outcome.res, n |-> Outcome.n]))
=============================================================================
