-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Contents octets of INTEGER, BOOLEAN and UTF8String (X.690 8.2, 8.3,     *)
(* 11.1; RFC 3629).                                                        *)
(*                                                                         *)
(* A value of a w-octet integer type is its w octets, big endian: two's    *)
(* complement for a signed type, magnitude for an unsigned one.            *)
(***************************************************************************)
EXTENDS Octets

RedundantHead(c) ==
  Len(c) > 1 /\ ((c[1] = 0 /\ c[2] < 128) \/ (c[1] = 255 /\ c[2] >= 128))

RECURSIVE Minimal(_)
Minimal(c) == IF RedundantHead(c) THEN Minimal(Tail(c)) ELSE c

EncInt(signed, v) == IF signed THEN Minimal(v) ELSE Minimal(<<0>> \o v)

\* Decoding into a w-octet type: the kind of error, or "ok" and the value.
DecInt(signed, width, c) ==
  LET bad(e) == [res |-> e, v |-> <<>>]
      fill == IF c[1] >= 128 THEN 255 ELSE 0
      mag == IF c[1] = 0 THEN Tail(c) ELSE c
  IN IF c = <<>> THEN bad(Unterminated)
     ELSE IF RedundantHead(c) THEN bad(Redundant)
     ELSE IF signed
          THEN IF Len(c) > width THEN bad(Overflow)
               ELSE [res |-> "ok", v |-> Rep(fill, width - Len(c)) \o c]
          ELSE IF c[1] >= 128 \/ Len(mag) > width THEN bad(Overflow)
               ELSE [res |-> "ok", v |-> Rep(0, width - Len(mag)) \o mag]

EncBool(b) == IF b THEN <<255>> ELSE <<0>>

DecBool(rule, c) ==
  IF c = <<>> THEN [res |-> Unterminated, v |-> FALSE]
  ELSE IF Len(c) > 1 THEN [res |-> "ExtraContentsOctet", v |-> FALSE]
  ELSE IF rule = "der" /\ c[1] \notin {0, 255} THEN [res |-> "InvalidDerBooleanContents", v |-> FALSE]
  ELSE [res |-> "ok", v |-> c[1] # 0]

(* ------------------------------- UTF-8 --------------------------------- *)
Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191

\* How many octets the character at the i-th octet has; 0 when there is none.
Utf8Char(s, i) ==
  LET o == s[i] IN
  IF o < 128 THEN 1
  ELSE IF o \in 194..223 THEN (IF Cont(s, i + 1) THEN 2 ELSE 0)
  ELSE IF o \in 224..239 THEN
       (IF /\ Cont(s, i + 1) /\ Cont(s, i + 2)
           /\ o = 224 => s[i + 1] >= 160         \* not shorter
           /\ o = 237 => s[i + 1] < 160          \* no surrogate
        THEN 3 ELSE 0)
  ELSE IF o \in 240..244 THEN
       (IF /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
           /\ o = 240 => s[i + 1] >= 144
           /\ o = 244 => s[i + 1] < 144
        THEN 4 ELSE 0)
  ELSE 0

\* Every octet that does not continue a character starts one that ends where the next starts.
IsUtf8(s) ==
  LET starts == { i \in 1..Len(s) : s[i] \notin 128..191 } IN
  /\ s # <<>> => 1 \in starts
  /\ \A i \in starts :
       LET n == Utf8Char(s, i) IN n > 0 /\ (i + n > Len(s) \/ i + n \in starts)
=============================================================================
