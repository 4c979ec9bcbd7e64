-------------------------------- MODULE Ident --------------------------------
(***************************************************************************)
(* Identifier octets: the octet-at-a-time parser, and the constructor.     *)
(*                                                                         *)
(* "parse" runs feed the parser octets chosen by the environment, or end   *)
(* the input, until it decides.  "build" runs grow a tag number bit by bit *)
(* and construct the identifier of every class and flag from it.           *)
(***************************************************************************)
EXTENDS Octets, TLC, Json

CONSTANTS
  Modes,          \* subset of {"parse", "build"}
  FirstSet,       \* first octets offered to the parser
  SecondSet,      \* second octets offered after a long-form first octet
  MoreSet,        \* octets offered later
  MaxMore,        \* how many single octets are offered after the second
  RunSet,         \* continuation octets that may come in runs,
  RunFirst,       \*   after these first octets
  RunSecond,      \*   and these second octets
  RunLens,        \*   with these lengths,
  AfterRun,       \*   followed by these octets
  FullBits,       \* all numbers of up to this many bits are built
  BitRuns,        \* runs of equal bits appended to the smaller numbers
  BitRuns2        \* second runs appended to those

VARIABLES
  mode,
  hist,           \* octets consumed so far
  ph,             \* "first", "second", "more", "ok", "err", or "build"
  err,
  ran,            \* how many runs were taken
  num             \* tag number under construction

vars == <<mode, hist, ph, err, ran, num>>

Init ==
  /\ mode \in Modes
  /\ hist = <<>>
  /\ ph = IF mode = "parse" THEN "first" ELSE "build"
  /\ err = ""
  /\ ran = 0
  /\ num = <<>>

(* ------------------------------- parser -------------------------------- *)
FirstOctet(o) ==
  /\ ph = "first"
  /\ hist' = <<o>>
  /\ ph' = IF o % 32 = 31 THEN "second" ELSE "ok"
  /\ UNCHANGED <<mode, err, ran, num>>

SecondOctet(o) ==
  /\ ph = "second"
  /\ hist' = Append(hist, o)
  /\ IF o <= 30 \/ o = 128
     THEN ph' = "err" /\ err' = Redundant
     ELSE ph' = (IF o >= 128 THEN "more" ELSE "ok") /\ err' = err
  /\ UNCHANGED <<mode, ran, num>>

MoreOctet(o) ==
  /\ ph = "more"
  /\ Len(hist) < 2 + (IF hist[1] \in RunFirst THEN MaxMore ELSE 1) \/ ran > 0
  /\ hist' = Append(hist, o)
  /\ ph' = IF o >= 128 THEN "more" ELSE "ok"
  /\ ran > 0 => o \in AfterRun
  /\ ran' = IF ran > 0 THEN ran + 1 ELSE 0
  /\ ran < 3
  /\ UNCHANGED <<mode, err, num>>

RunOctets(o, k) ==
  /\ ph = "more"
  /\ ran = 0
  /\ hist[1] \in RunFirst /\ hist[2] \in RunSecond /\ Len(hist) <= 3
  /\ hist' = hist \o Rep(o, k)
  /\ ran' = 1
  /\ UNCHANGED <<mode, ph, err, num>>

EndOfInput ==
  /\ ph \in {"first", "second", "more"}
  /\ ph' = "err"
  /\ err' = Unterminated
  /\ UNCHANGED <<mode, hist, ran, num>>

(* ----------------------------- constructor ----------------------------- *)
NextBit(b) ==
  /\ ph = "build"
  /\ ran = 0
  /\ Len(num) < FullBits
  /\ num = <<>> => b = 1
  /\ num' = Append(num, b)
  /\ UNCHANGED <<mode, hist, ph, err, ran>>

BitRun(b, k) ==
  /\ ph = "build"
  /\ ran < 2
  /\ num # <<>> /\ (ran = 1 => b # num[Len(num)])
  /\ IF ran = 0 THEN Len(num) <= 3 ELSE k \in BitRuns2
  /\ Len(num) + k <= TagBits
  /\ num' = num \o Rep(b, k)
  /\ ran' = ran + 1
  /\ UNCHANGED <<mode, hist, ph, err>>

Next ==
  \/ \E o \in Offer(FirstSet, vars) : FirstOctet(o)
  \/ \E o \in Offer(SecondSet, vars) : SecondOctet(o)
  \/ \E o \in Offer(MoreSet, vars) : MoreOctet(o)
  \/ \E o \in Offer(RunSet, vars), k \in Offer(RunLens, vars) : RunOctets(o, k)
  \/ EndOfInput
  \/ \E b \in Offer({0, 1}, vars) : NextBit(b)
  \/ \E b \in Offer({0, 1}, vars), k \in Offer(BitRuns, vars) : BitRun(b, k)

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Decided == ph \in {"ok", "err"}

\* The parser decides exactly as the closed form says.
MachineIsParseId ==
  mode = "parse" =>
    /\ ph = "ok" => ParseId(hist) = Ok(Len(hist))
    /\ ph = "err" => ParseId(hist) = Err(err)
    /\ ~Decided => ParseId(hist) = Err(Unterminated)

\* What is accepted is the canonical encoding of what it means.
AcceptedIsCanonical ==
  mode = "parse" /\ ph = "ok" => EncId(ClassOf(hist), PcOf(hist), IdNum(hist)) = hist

\* What is built is accepted, whole, and means what it was built from.
BuiltIsLossless ==
  mode = "build" =>
    \A c \in 0..3, p \in 0..1 :
      LET id == EncId(c, p, num) IN
        /\ ParseId(id \o <<0, 129>>) = Ok(Len(id))
        /\ ClassOf(id) = c /\ PcOf(id) = p /\ IdNum(id) = num

(* ------------------------------- emission ------------------------------ *)
EmitParse ==
  PrintT("C " \o ToJson([k |-> "idp", in |-> hist, res |-> IF ph = "ok" THEN "ok" ELSE err,
    class |-> IF ph = "ok" THEN ClassOf(hist) ELSE 0,
    pc |-> IF ph = "ok" THEN PcOf(hist) ELSE 0,
    num |-> IF ph = "ok" THEN NumOctets(IdNum(hist)) ELSE <<>>,
    over |-> ph = "ok" /\ Len(IdNum(hist)) > TagBits]))

EmitBuild ==
  PrintT("C " \o ToJson([k |-> "idb", num |-> NumOctets(num),
    ids |-> [i \in 1..8 |-> EncId((i - 1) \div 2, (i - 1) % 2, num)]]))

\* The identifiers of the universal types the crates use.
Universal(p, n) == EncId(0, p, BitsOf(n))

EmitConstants ==
  PrintT("C " \o ToJson([k |-> "idc", ids |-> [
    eoc |-> Universal(0, 0), boolean |-> Universal(0, 1), integer |-> Universal(0, 2),
    octet_string |-> Universal(0, 4), octet_string_constructed |-> Universal(1, 4),
    null |-> Universal(0, 5), real |-> Universal(0, 9),
    utf8_string |-> Universal(0, 12), utf8_string_constructed |-> Universal(1, 12),
    sequence |-> Universal(1, 16), set |-> Universal(1, 17)]]))

Emit ==
  /\ mode = "parse" /\ Decided => EmitParse
  /\ mode = "build" => EmitBuild
  /\ mode = "build" /\ num = <<>> => EmitConstants
=============================================================================
