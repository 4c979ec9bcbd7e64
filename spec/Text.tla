-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Octets arriving one by one, read as text.  The reader is the automaton  *)
(* of well-formed UTF-8 (Unicode, table 3-7): how many octets of the       *)
(* current character are still to come, and between which bounds the next  *)
(* one has to be.                                                          *)
(***************************************************************************)
EXTENDS Codec, TLC, Json

CONSTANTS
  Alphabet,   \* octets that may arrive
  MaxOctets,
  After       \* octets that may follow a wrong one

VARIABLES octets, left, lo, hi, wrong
vars == <<octets, left, lo, hi, wrong>>

Init == octets = <<>> /\ left = 0 /\ lo = 0 /\ hi = 255 /\ wrong = 0

\* What an octet that begins a character asks for: << octets to come, bounds of the next >>.
Start(o) == CASE o < 128 -> <<0, 0, 255>>
              [] o \in 194..223 -> <<1, 128, 191>>
              [] o = 224 -> <<2, 160, 191>>
              [] o = 237 -> <<2, 128, 159>>
              [] o \in 225..239 \ {237} -> <<2, 128, 191>>
              [] o = 240 -> <<3, 144, 191>>
              [] o \in 241..243 -> <<3, 128, 191>>
              [] o = 244 -> <<3, 128, 143>>
              [] OTHER -> <<>>

First(o) ==
  /\ left = 0 /\ wrong = 0
  /\ LET s == Start(o) IN
     IF s = <<>> THEN wrong' = 1 /\ UNCHANGED <<left, lo, hi>>
     ELSE left' = s[1] /\ lo' = s[2] /\ hi' = s[3] /\ wrong' = 0
Further(o) ==
  /\ left > 0 /\ wrong = 0
  /\ IF o \in lo..hi THEN left' = left - 1 /\ lo' = (IF left = 1 THEN 0 ELSE 128) /\ hi' = (IF left = 1 THEN 255 ELSE 191) /\ wrong' = 0
     ELSE wrong' = 1 /\ UNCHANGED <<left, lo, hi>>
\* Nothing that follows repairs a wrong octet.
Lost(o) == wrong = 1 /\ o \in After /\ wrong' = 2 /\ UNCHANGED <<left, lo, hi>>

Next == /\ Len(octets) < MaxOctets
        /\ \E o \in Offer(Alphabet, vars) : (First(o) \/ Further(o) \/ Lost(o)) /\ octets' = Append(octets, o)
Spec == Init /\ [][Next]_vars

WellFormed == wrong = 0 /\ left = 0

\* The automaton and the definition by characters agree.
Agree == WellFormed = IsUtf8(octets)

Emit == PrintT("C " \o ToJson([k |-> "txt", o |-> octets, ok |-> WellFormed]))
=============================================================================
