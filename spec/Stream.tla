------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* A cursor over a slice that holds elements, sound or not, one after      *)
(* another, and a caller that applies parsers to it in some order.  A      *)
(* parser moves the cursor past one element or not at all.                 *)
(***************************************************************************)
EXTENDS Octets, TLC, Json

CONSTANTS Chunks, MaxChunks, MaxOps, Parsers

VARIABLES buf, count, pos, hist
vars == <<buf, count, pos, hist>>

Init == buf = <<>> /\ count = 0 /\ pos = 0 /\ hist = <<>>

\* First the slice is filled ...
Fill(c) ==
  /\ hist = <<>>
  /\ count < MaxChunks
  /\ buf' = buf \o c
  /\ count' = count + 1
  /\ UNCHANGED <<pos, hist>>

Outcome(p, s) == IF p = "id" THEN ParseId(s) ELSE Parse(p, s)

\* ... and then parsed.
Apply(p) ==
  /\ count = MaxChunks
  /\ Len(hist) < MaxOps
  /\ LET r == Outcome(p, Drop(buf, pos)) IN
     /\ pos' = pos + r.n
     /\ hist' = Append(hist, <<p, r.res, pos + r.n>>)
  /\ UNCHANGED <<buf, count>>

Next == (\E c \in Offer(Chunks, vars) : Fill(c)) \/ (\E p \in Parsers : Apply(p))
Spec == Init /\ [][Next]_vars

InBounds == pos <= Len(buf)
\* The cursor never goes back, and moves exactly when a parser succeeds.
Discipline ==
  [][hist' # hist =>
       LET r == hist'[Len(hist')] IN IF r[2] = "ok" THEN pos' > pos ELSE pos' = pos]_vars
\* What BER delimits with a definite length, DER delimits alike.
DerWithinBer ==
  \A p \in {pos} : LET s == Drop(buf, p) IN IsOk(ParseDer(s)) => ParseBer(s) = ParseDer(s)

Emit == Len(hist) = MaxOps => PrintT("C " \o ToJson([k |-> "cur", in |-> buf, ops |-> hist]))
=============================================================================
