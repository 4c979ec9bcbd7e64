----------------------------- MODULE SerdeStream -----------------------------
(***************************************************************************)
(* A stream of elements, sound or not, and a caller that asks for values   *)
(* of various types.  The cursor moves past one element whether or not it  *)
(* suits the type, and not at all when there is none.                      *)
(***************************************************************************)
EXTENDS Types, Json

CONSTANTS Chunks, MaxChunks, MaxOps, TypeList, Rules

VARIABLES buf, count, pos, hist
vars == <<buf, count, pos, hist>>

Init == buf = <<>> /\ count = 0 /\ pos = 0 /\ hist = <<>>

Fill(c) ==
  /\ hist = <<>> /\ count < MaxChunks
  /\ buf' = buf \o c
  /\ count' = count + 1
  /\ UNCHANGED <<pos, hist>>

Outcome(d) == IF d.ok THEN [v |-> d.v] ELSE [e |-> d.errs]

Ask(rule, T) ==
  /\ count = MaxChunks /\ Len(hist) < MaxOps
  /\ LET rest == Drop(buf, pos)
         r == Parse(rule, rest)
         d == IF IsOk(r) THEN Decode(rule, T, Take(rest, r.n)) ELSE Bad({r.res})
     IN /\ pos' = pos + r.n
        /\ hist' = Append(hist, [r |-> rule, t |-> Name(T), f |-> IsOk(r), o |-> Outcome(d), p |-> pos + r.n])
  /\ UNCHANGED <<buf, count>>

Next ==
  \/ \E c \in Offer(Chunks, vars) : Fill(c)
  \/ \E rule \in Rules, i \in Offer(1..Len(TypeList), vars) : Ask(rule, TypeList[i])
Spec == Init /\ [][Next]_vars

Discipline == [][hist' # hist => IF hist'[Len(hist')].f THEN pos' > pos ELSE pos' = pos]_vars
InBounds == pos <= Len(buf)
Emit == Len(hist) = MaxOps => PrintT("C " \o ToJson([k |-> "tst", in |-> buf, ops |-> hist]))
=============================================================================
