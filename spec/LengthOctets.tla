---------------------------- MODULE LengthOctets ----------------------------
(***************************************************************************)
(* Length octets: the octet-at-a-time parser, the encoder, and comparison. *)
(***************************************************************************)
EXTENDS Octets, TLC, Json

CONSTANTS
  Modes,          \* subset of {"parse", "build", "cmp"}
  FirstSet, SecondSet, MoreSet,   \* octets offered to the parser
  FullCount,      \* long forms of up to this many octets get every mixture of MoreSet
  FullBits, BitRuns, BitRuns2,    \* numbers built, as in Ident
  Reps            \* lengths compared with one another

VARIABLES mode, hist, ph, err, ran, num, other

vars == <<mode, hist, ph, err, ran, num, other>>

Init ==
  /\ mode \in Modes
  /\ hist = <<>>
  /\ ph = IF mode = "parse" THEN "first" ELSE mode
  /\ err = ""
  /\ ran = 0
  /\ num \in (IF mode = "cmp" THEN Reps ELSE {<<>>})
  /\ other \in (IF mode = "cmp" THEN Reps ELSE {<<>>})

Count == hist[1] - 128

FirstOctet(o) ==
  /\ ph = "first"
  /\ hist' = <<o>>
  /\ ph' = IF o <= 128 THEN "ok" ELSE "second"
  /\ UNCHANGED <<mode, err, ran, num, other>>

SecondOctet(o) ==
  /\ ph = "second"
  /\ hist' = Append(hist, o)
  /\ IF o = 0 \/ (Count = 1 /\ o < 128) THEN ph' = "err" /\ err' = Redundant
     ELSE IF Count > WordBits \div 8 THEN ph' = "err" /\ err' = Overflow
     ELSE ph' = (IF Count = 1 THEN "ok" ELSE "more") /\ err' = err
  /\ UNCHANGED <<mode, ran, num, other>>

MoreOctet(o) ==
  /\ ph = "more"
  /\ Count <= FullCount \/ ran > 0 \/ Len(hist) = Count
  /\ hist' = Append(hist, o)
  /\ ph' = IF Len(hist) = Count THEN "ok" ELSE "more"
  /\ UNCHANGED <<mode, err, ran, num, other>>

\* Equal octets up to the one before the last.
Fill(o) ==
  /\ ph = "more" /\ ran = 0 /\ Count > FullCount /\ Len(hist) = 2
  /\ hist' = hist \o Rep(o, Count - 2)
  /\ ran' = 1
  /\ UNCHANGED <<mode, ph, err, num, other>>

\* The input ends, possibly after some more octets.
EndOfInput(o, k) ==
  /\ ph \in {"first", "second", "more"}
  /\ k > 0 => ph = "more" /\ Len(hist) = 2 /\ 2 + k <= Count
  /\ hist' = hist \o Rep(o, k)
  /\ ph' = "err"
  /\ err' = Unterminated
  /\ UNCHANGED <<mode, ran, num, other>>

NextBit(b) ==
  /\ ph = "build" /\ ran = 0 /\ Len(num) < FullBits
  /\ num = <<>> => b = 1
  /\ num' = Append(num, b)
  /\ UNCHANGED <<mode, hist, ph, err, ran, other>>

BitRun(b, k) ==
  /\ ph = "build" /\ ran < 2 /\ num # <<>>
  /\ IF ran = 0 THEN Len(num) <= 3 ELSE k \in BitRuns2 /\ b # num[Len(num)]
  /\ Len(num) + k <= WordBits
  /\ num' = num \o Rep(b, k)
  /\ ran' = ran + 1
  /\ UNCHANGED <<mode, hist, ph, err, other>>

Next ==
  \/ \E o \in Offer(FirstSet, vars) : FirstOctet(o)
  \/ \E o \in Offer(SecondSet, vars) : SecondOctet(o)
  \/ \E o \in Offer(MoreSet, vars) : MoreOctet(o)
  \/ \E o \in Offer(MoreSet, vars) : Fill(o)
  \/ \E o \in Offer({0, 128}, vars), k \in Offer(0..6, vars) : EndOfInput(o, k)
  \/ \E b \in Offer({0, 1}, vars) : NextBit(b)
  \/ \E b \in Offer({0, 1}, vars), k \in Offer(BitRuns, vars) : BitRun(b, k)

Spec == Init /\ [][Next]_vars

Decided == ph \in {"ok", "err"}

\* The numeric order of two numbers given by bits: -1, 0 or 1.
RECURSIVE CmpBits(_, _, _)
CmpBits(a, b, i) ==
  IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
  ELSE IF i > Len(a) THEN 0
  ELSE IF a[i] # b[i] THEN IF a[i] < b[i] THEN -1 ELSE 1
  ELSE CmpBits(a, b, i + 1)

\* The order of two lengths; the indefinite length has none.
Cmp(x, y) ==
  IF IsIndef(x) \/ IsIndef(y) THEN "none"
  ELSE CASE CmpBits(x[2], y[2], 1) = -1 -> "less"
         [] CmpBits(x[2], y[2], 1) = 0 -> "equal"
         [] CmpBits(x[2], y[2], 1) = 1 -> "greater"

MachineIsParseLen ==
  mode = "parse" =>
    /\ ph = "ok" => ParseLen(hist) = Ok(Len(hist))
    /\ ph = "err" => ParseLen(hist) = Err(err)
    /\ ~Decided => ParseLen(hist) = Err(Unterminated)

AcceptedIsCanonical == mode = "parse" /\ ph = "ok" => EncLen(LenOf(hist)) = hist

BuiltIsLossless ==
  mode = "build" => LET e == EncLen(Def(num)) IN
    ParseLen(e \o <<1, 128>>) = Ok(Len(e)) /\ LenOf(e) = Def(num)

Rec(l) == [def |-> ~IsIndef(l), num |-> IF IsIndef(l) THEN <<>> ELSE NumOctets(l[2])]

Emit ==
  /\ mode = "parse" /\ Decided =>
       PrintT("C " \o ToJson([k |-> "lenp", in |-> hist, res |-> IF ph = "ok" THEN "ok" ELSE err,
         len |-> IF ph = "ok" THEN Rec(LenOf(hist)) ELSE Rec(Indef)]))
  /\ mode = "build" =>
       PrintT("C " \o ToJson([k |-> "lenb", len |-> Rec(Def(num)), out |-> EncLen(Def(num))]))
  /\ mode = "cmp" =>
       PrintT("C " \o ToJson([k |-> "lenc", a |-> Rec(num), b |-> Rec(other), cmp |-> Cmp(num, other),
         ea |-> EncLen(num), eb |-> EncLen(other)]))
=============================================================================
