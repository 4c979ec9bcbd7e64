--------------------------------- MODULE Runs ---------------------------------
(***************************************************************************)
(* Framing at sizes and depths that cannot be spelled octet by octet.  The *)
(* input is a sequence of runs <<unit, count>> (count copies of the octets *)
(* unit); opening or closing many elements is one step.                    *)
(***************************************************************************)
EXTENDS Octets, TLC, Json

CONSTANTS Modes, OpenIds, PrimIds, Counts, Sizes, MaxTokens

VARIABLES mode, rle, depth, ph, err, n, top, tokens
vars == <<mode, rle, depth, ph, err, n, top, tokens>>

Init ==
  /\ mode \in Modes /\ rle = <<>> /\ depth = 0 /\ ph = "run" /\ err = "" /\ n = 0
  /\ top = <<0, 0>> /\ tokens = 0

Top(i, l) == top' = IF tokens = 0 THEN <<i, l>> ELSE top
Step == ph = "run" /\ tokens < MaxTokens /\ tokens' = tokens + 1 /\ mode' = mode

\* k elements of indefinite length, each opened inside the previous one.
Open(id, k) ==
  /\ Step /\ mode = "ber"
  /\ rle' = Append(rle, <<id \o <<128>>, k>>)
  /\ n' = n + k * (Len(id) + 1)
  /\ depth' = depth + k
  /\ Top(Len(id), 1)
  /\ UNCHANGED <<ph, err>>

\* k terminators; those beyond the open elements are not part of the element.
Close(k) ==
  /\ Step
  /\ mode = "der" => k = 1
  /\ LET used == IF depth = 0 THEN 1 ELSE IF k < depth THEN k ELSE depth IN
       /\ rle' = Append(rle, <<Eoc, k>>)
       /\ n' = n + 2 * used
       /\ depth' = IF depth = 0 THEN 0 ELSE depth - used
       /\ ph' = IF depth' = 0 THEN "ok" ELSE "run"
  /\ Top(1, 1)
  /\ err' = err

\* A definite-length element with size contents octets, all equal to o.
Prim(id, size, o) ==
  /\ Step
  /\ LET l == EncLen(Def(BitsOf(size))) IN
       /\ rle' = rle \o <<<<id \o l, 1>>, <<<<o>>, size>>>>
       /\ n' = n + Len(id) + Len(l) + size
       /\ Top(Len(id), Len(l))
       /\ ph' = IF depth = 0 THEN "ok" ELSE "run"
  /\ size = 0 => id # <<0>>
  /\ UNCHANGED <<depth, err>>

\* The same, but the input ends one octet early.
Truncated(id, size, o) ==
  /\ Step
  /\ size > 0
  /\ rle' = rle \o <<<<id \o EncLen(Def(BitsOf(size))), 1>>, <<<<o>>, size - 1>>>>
  /\ ph' = "err" /\ err' = Unterminated
  /\ UNCHANGED <<n, depth, top>>

EndOfInput ==
  /\ ph = "run" /\ tokens > 0
  /\ ph' = "err" /\ err' = Unterminated
  /\ UNCHANGED <<mode, rle, depth, n, top, tokens>>

Next ==
  \/ \E id \in OpenIds, k \in Counts : Open(id, k)
  \/ \E k \in Counts : Close(k)
  \/ \E id \in PrimIds, s \in Sizes, o \in {0, 48, 128} : Prim(id, s, o)
  \/ \E id \in PrimIds, s \in Sizes, o \in {0} : Truncated(id, s, o)
  \/ EndOfInput

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
RECURSIVE Expand(_)
Expand(r) ==
  IF r = <<>> THEN <<>>
  ELSE [i \in 1..(Len(r[1][1]) * r[1][2]) |-> r[1][1][((i - 1) % Len(r[1][1])) + 1]] \o Expand(Tail(r))

RECURSIVE SizeOf(_)
SizeOf(r) == IF r = <<>> THEN 0 ELSE Len(r[1][1]) * r[1][2] + SizeOf(Tail(r))

\* Where the input is short enough to be spelled out, the runs mean what the grammar says.
RunsAreGrammar ==
  SizeOf(rle) <= 40 =>
    /\ ph = "ok" => Parse(mode, Expand(rle)) = Ok(n)
    /\ ph = "err" => Parse(mode, Expand(rle)) = Err(err)

ConsumedWithinInput == ph = "ok" => n <= SizeOf(rle)

Emit == ph \in {"ok", "err"} =>
  PrintT("C " \o ToJson([k |-> "run", m |-> mode, rle |-> rle, res |-> IF ph = "ok" THEN "ok" ELSE err,
    n |-> n, i |-> top[1], l |-> top[2]]))
=============================================================================
