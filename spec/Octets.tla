------------------------------- MODULE Octets -------------------------------
(***************************************************************************)
(* X.690 octet level vocabulary shared by every other module.              *)
(*                                                                         *)
(* TLC integers have 32 bits while tag numbers have up to 128 bits and     *)
(* lengths up to 64, so a number is written as its sequence of bits, most  *)
(* significant first and without leading zeros; <<>> is zero.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Octet == 0..255
WordBits == 64      \* width of a length (a machine word of the target)
Word32 == 32        \* what configurations for smaller targets put in its place
TagBits == 128      \* widest tag number that can be represented

\* The choices the environment is offered.  Configurations that walk at random offer a few of them at each step.
Offer(S, state) == S

Pow2(n) == 2^n

\* The i-th bit (1 = most significant of k) of the k-bit number n.
BitOf(n, k, i) == (n \div Pow2(k - i)) % 2

\* The bits of a sequence of k-bit digits, leading zeros included.
DigitBits(ds, k) == [i \in 1..(k * Len(ds)) |-> BitOf(ds[((i - 1) \div k) + 1], k, ((i - 1) % k) + 1)]

\* The first index from i on at which a bit is set, or Len(bits) + 1.
RECURSIVE FirstOne(_, _)
FirstOne(bits, i) == IF i > Len(bits) \/ bits[i] = 1 THEN i ELSE FirstOne(bits, i + 1)

\* Removes the leading zeros.
Trim(bits) == SubSeq(bits, FirstOne(bits, 1), Len(bits))

\* The value of the bits from index i to index j, at most 30 of them.
RECURSIVE ValOf(_, _, _)
ValOf(bits, i, j) == IF j < i THEN 0 ELSE 2 * ValOf(bits, i, j - 1) + bits[j]
Val(bits) == ValOf(bits, 1, Len(bits))

\* Splits a number into the fewest k-bit digits (none for zero).
Digits(bits, k) ==
  LET n == Len(bits)
      g == (n + k - 1) \div k
      end(j) == n - (g - j) * k
  IN [j \in 1..g |-> ValOf(bits, IF end(j) > k THEN end(j) - k + 1 ELSE 1, end(j))]

NumOctets(bits) == Digits(bits, 8)

\* The bits of a small natural number.
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN <<>> ELSE Append(BitsOf(n \div 2), n % 2)

Rep(x, n) == [i \in 1..n |-> x]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ Take(s, Len(p)) = p

(***************************************************************************)
(* Identifier octets (X.690 8.1.2).                                        *)
(***************************************************************************)
IdFirst(class, pc, low) == class * 64 + pc * 32 + low
ClassOf(id) == id[1] \div 64
PcOf(id) == (id[1] \div 32) % 2
LowOf(id) == id[1] % 32

EncId(class, pc, num) ==
  IF Len(num) < 5 \/ (Len(num) = 5 /\ Val(num) < 31)
  THEN <<IdFirst(class, pc, Val(num))>>
  ELSE LET ds == Digits(num, 7)
       IN <<IdFirst(class, pc, 31)>> \o [i \in 1..Len(ds) |-> IF i < Len(ds) THEN 128 + ds[i] ELSE ds[i]]

IdNum(id) ==
  IF Len(id) = 1 THEN BitsOf(LowOf(id))
  ELSE Trim(DigitBits([i \in 1..(Len(id) - 1) |-> id[i + 1] % 128], 7))

(***************************************************************************)
(* Outcomes.  n counts the octets of the accepted prefix.                  *)
(***************************************************************************)
Ok(n) == [res |-> "ok", n |-> n]
Err(e) == [res |-> e, n |-> 0]
IsOk(r) == r.res = "ok"

Unterminated == "UnterminatedBytes"
Redundant == "RedundantBytes"
Overflow == "OverFlow"
NoIndefinite == "IndefiniteLength"

\* The first index from i on at which the continuation bit is clear, or Len(s) + 1.
RECURSIVE FirstLow(_, _)
FirstLow(s, i) == IF i > Len(s) \/ s[i] < 128 THEN i ELSE FirstLow(s, i + 1)

\* How many octets the identifier at the head of s has.
ParseId(s) ==
  IF s = <<>> THEN Err(Unterminated)
  ELSE IF s[1] % 32 # 31 THEN Ok(1)
  ELSE IF Len(s) = 1 THEN Err(Unterminated)
  ELSE IF s[2] <= 30 \/ s[2] = 128 THEN Err(Redundant)
  ELSE LET e == FirstLow(s, 2) IN IF e > Len(s) THEN Err(Unterminated) ELSE Ok(e)

(***************************************************************************)
(* Length octets (X.690 8.1.3), in the minimal form of 10.1.               *)
(***************************************************************************)
Indef == <<"indefinite">>
Def(num) == <<"definite", num>>
IsIndef(l) == l[1] = "indefinite"

EncLen(l) ==
  IF IsIndef(l) THEN <<128>>
  ELSE IF Len(l[2]) <= 7 THEN <<Val(l[2])>>
  ELSE LET os == NumOctets(l[2]) IN <<128 + Len(os)>> \o os

ParseLen(s) ==
  IF s = <<>> THEN Err(Unterminated)
  ELSE IF s[1] <= 128 THEN Ok(1)
  ELSE IF Len(s) = 1 THEN Err(Unterminated)
  ELSE IF s[2] = 0 \/ (s[1] = 129 /\ s[2] < 128) THEN Err(Redundant)
  ELSE IF s[1] - 128 > WordBits \div 8 THEN Err(Overflow)
  ELSE IF Len(s) < 1 + s[1] - 128 THEN Err(Unterminated)
  ELSE Ok(1 + s[1] - 128)

LenOf(octs) ==
  IF octs = <<128>> THEN Indef
  ELSE IF Len(octs) = 1 THEN Def(BitsOf(octs[1]))
  ELSE Def(Trim(DigitBits(Drop(octs, 1), 8)))

\* A definite length as a TLC integer, or -1 when it is too large for one.
SmallLen(l) == IF Len(l[2]) <= 30 THEN Val(l[2]) ELSE -1

(***************************************************************************)
(* One TLV header at the head of s: i octets of identifier, l of length.   *)
(***************************************************************************)
ParseHeader(s) ==
  LET a == ParseId(s) IN
  IF ~IsOk(a) THEN [res |-> a.res, i |-> 0, l |-> 0]
  ELSE LET b == ParseLen(Drop(s, a.n)) IN
       IF ~IsOk(b) THEN [res |-> b.res, i |-> a.n, l |-> 0]
       ELSE [res |-> "ok", i |-> a.n, l |-> b.n]

HeaderLen(s, h) == LenOf(SubSeq(s, h.i + 1, h.i + h.l))

(***************************************************************************)
(* DER: identifier, definite length, contents.                             *)
(***************************************************************************)
ParseDer(s) ==
  LET h == ParseHeader(s) IN
  IF h.res # "ok" THEN Err(h.res)
  ELSE LET l == HeaderLen(s, h)
           c == SmallLen(l)
           rest == Len(s) - h.i - h.l
       IN IF IsIndef(l) THEN Err(NoIndefinite)
          ELSE IF c < 0 \/ c > rest THEN Err(Unterminated)
          ELSE Ok(h.i + h.l + c)

(***************************************************************************)
(* BER, by recursion on the nesting: an indefinite element is a header     *)
(* followed by elements up to the first one that is end-of-contents.       *)
(***************************************************************************)
Eoc == <<0, 0>>

RECURSIVE ParseBer(_)
RECURSIVE UntilEoc(_, _)

ParseBer(s) ==
  LET h == ParseHeader(s) IN
  IF h.res # "ok" THEN Err(h.res)
  ELSE LET l == HeaderLen(s, h)
           k == h.i + h.l
       IN IF IsIndef(l) THEN UntilEoc(s, k)
          ELSE LET c == SmallLen(l) IN
               IF c < 0 \/ c > Len(s) - k THEN Err(Unterminated) ELSE Ok(k + c)

\* The inner elements of s start after the k-th octet.
UntilEoc(s, k) ==
  LET r == ParseBer(Drop(s, k)) IN
  IF ~IsOk(r) THEN r
  ELSE IF SubSeq(s, k + 1, k + r.n) = Eoc THEN Ok(k + 2)
  ELSE UntilEoc(s, k + r.n)

Parse(mode, s) == IF mode = "der" THEN ParseDer(s) ELSE ParseBer(s)
=============================================================================
