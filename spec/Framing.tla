------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* BER and DER parsing as the code does it: one pass over the octets with  *)
(* a counter of open indefinite-length elements.  The environment chooses  *)
(* every octet, or ends the input.  The invariants tie this machine to the *)
(* recursive definition of an element in Octets.                           *)
(***************************************************************************)
EXTENDS Octets, TLC, Json

CONSTANTS
  Modes,        \* subset of {"der", "ber"}
  Id1Set, Id2Set, IdNSet,       \* identifier octets offered
  Len1Set, Len2Set, LenNSet,    \* length octets offered
  KeyIds, KeyLens,              \* one of the two must occur in every header
  Fills,        \* contents fillers
  MaxBody,      \* longest contents supplied in full
  MaxTlv,       \* how many elements, nested ones and terminators included, are offered
  MaxIdExtra    \* how many identifier octets may follow the second

VARIABLES
  mode,
  hist,         \* octets consumed
  ph,           \* id1, id2, idn, len1, len2, lenn, body, ok, err
  start,        \* octets consumed before the current element
  idEnd,        \* octets consumed before its length octets
  top,          \* header sizes of the outermost element
  depth,        \* open indefinite-length elements
  tlvs,         \* elements started
  err

vars == <<mode, hist, ph, start, idEnd, top, depth, tlvs, err>>

NoTop == [i |-> 0, l |-> 0]

Init ==
  /\ mode \in Modes
  /\ hist = <<>> /\ ph = "id1" /\ start = 0 /\ idEnd = 0
  /\ top = NoTop /\ depth = 0 /\ tlvs = 0 /\ err = ""

Eat(os) == hist' = hist \o os
Fail(e) == ph' = "err" /\ err' = e

(* ------------------------------ identifier ----------------------------- *)
Id1(o) ==
  /\ ph = "id1" /\ tlvs < MaxTlv
  /\ Eat(<<o>>)
  /\ start' = Len(hist) /\ tlvs' = tlvs + 1
  /\ IF o % 32 = 31 THEN ph' = "id2" /\ idEnd' = idEnd
                    ELSE ph' = "len1" /\ idEnd' = Len(hist) + 1
  /\ UNCHANGED <<mode, top, depth, err>>

Id2(o) ==
  /\ ph = "id2"
  /\ Eat(<<o>>)
  /\ IF o <= 30 \/ o = 128 THEN Fail(Redundant) /\ idEnd' = idEnd
     ELSE /\ ph' = IF o >= 128 THEN "idn" ELSE "len1"
          /\ idEnd' = Len(hist) + 1
          /\ err' = err
  /\ UNCHANGED <<mode, start, top, depth, tlvs>>

IdN(o) ==
  /\ ph = "idn" /\ Len(hist) - start < 2 + MaxIdExtra
  /\ Eat(<<o>>)
  /\ ph' = IF o >= 128 THEN "idn" ELSE "len1"
  /\ idEnd' = Len(hist) + 1
  /\ UNCHANGED <<mode, start, top, depth, tlvs, err>>

(* -------------------------------- length ------------------------------- *)
SetTop == top' = IF top = NoTop THEN [i |-> idEnd, l |-> Len(hist) + 1 - idEnd] ELSE top
KeyHeader(o) == hist[start + 1] \in KeyIds \/ o \in KeyLens

Len1(o) ==
  /\ ph = "len1" /\ KeyHeader(o)
  /\ Eat(<<o>>)
  /\ IF o > 128 THEN ph' = "len2" /\ UNCHANGED <<top, depth, err>>
     ELSE IF o < 128 THEN ph' = "body" /\ SetTop /\ UNCHANGED <<depth, err>>
     ELSE IF mode = "der" THEN Fail(NoIndefinite) /\ UNCHANGED <<top, depth>>
     ELSE ph' = "id1" /\ depth' = depth + 1 /\ SetTop /\ err' = err
  /\ UNCHANGED <<mode, start, idEnd, tlvs>>

LenCount == hist[idEnd + 1] - 128

Len2(o) ==
  /\ ph = "len2"
  /\ Eat(<<o>>)
  /\ IF o = 0 \/ (LenCount = 1 /\ o < 128) THEN Fail(Redundant) /\ top' = top
     ELSE IF LenCount > WordBits \div 8 THEN Fail(Overflow) /\ top' = top
     ELSE IF LenCount = 1 THEN ph' = "body" /\ SetTop /\ err' = err
     ELSE ph' = "lenn" /\ UNCHANGED <<top, err>>
  /\ UNCHANGED <<mode, start, idEnd, depth, tlvs>>

LenN(o) ==
  /\ ph = "lenn"
  /\ Eat(<<o>>)
  /\ IF Len(hist) - idEnd = LenCount THEN ph' = "body" /\ SetTop ELSE ph' = "lenn" /\ top' = top
  /\ UNCHANGED <<mode, start, idEnd, depth, tlvs, err>>

(* ------------------------------- contents ------------------------------ *)
Need == SmallLen(LenOf(Drop(hist, idEnd)))
Filler(f, n) == [i \in 1..n |-> f[((i - 1) % Len(f)) + 1]]
IsEoc == Drop(hist, start) = Eoc

Body(f) ==
  /\ ph = "body" /\ Need >= 0 /\ Need <= MaxBody
  /\ Eat(Filler(f, Need))
  /\ LET d == IF IsEoc THEN depth - 1 ELSE depth
     IN depth' = d /\ ph' = IF d > 0 THEN "id1" ELSE "ok"
  /\ UNCHANGED <<mode, start, idEnd, top, tlvs, err>>

\* The input ends after k octets of the contents.
ShortBody(f, k) ==
  /\ ph = "body" /\ (Need < 0 \/ k < Need) /\ k <= MaxBody
  /\ Eat(Filler(f, k))
  /\ Fail(Unterminated)
  /\ UNCHANGED <<mode, start, idEnd, top, depth, tlvs>>

\* A terminator in one step, for random walks, which seldom spell it.
Shortcuts == FALSE
Terminator ==
  /\ ph = "id1" /\ depth > 0 /\ tlvs < MaxTlv
  /\ Eat(Eoc)
  /\ start' = Len(hist) /\ idEnd' = Len(hist) + 1 /\ tlvs' = tlvs + 1
  /\ depth' = depth - 1 /\ ph' = IF depth > 1 THEN "id1" ELSE "ok"
  /\ UNCHANGED <<mode, top, err>>

EndOfInput ==
  /\ ph \in {"id1", "id2", "idn", "len1", "len2", "lenn"}
  /\ Fail(Unterminated)
  /\ UNCHANGED <<mode, hist, start, idEnd, top, depth, tlvs>>

Next ==
  \/ \E o \in Offer(Id1Set, vars) : Id1(o)
  \/ \E o \in Offer(Id2Set, vars) : Id2(o)
  \/ \E o \in Offer(IdNSet, vars) : IdN(o)
  \/ \E o \in Offer(Len1Set, vars) : Len1(o)
  \/ \E o \in Offer(Len2Set, vars) : Len2(o)
  \/ \E o \in Offer(LenNSet, vars) : LenN(o)
  \/ \E f \in Offer(Fills, vars) : Body(f)
  \/ ph = "body" /\ \E f \in Offer(Fills, vars), k \in {0, 1, Need - 1} : k >= 0 /\ ShortBody(f, k)
  \/ EndOfInput
  \/ Shortcuts /\ Terminator

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Decided == ph \in {"ok", "err"}

\* The counting machine and the recursive grammar agree.
MachineIsGrammar ==
  /\ ph = "ok" => Parse(mode, hist) = Ok(Len(hist))
  /\ ph = "err" => Parse(mode, hist) = Err(err)

\* No shorter input is complete (the machine decides as early as possible).
NothingDecidedEarly == ~Decided => Parse(mode, hist) = Err(Unterminated) \/ ph = "body"

\* The header of the outermost element is the one the accessors must show.
TopHeader == ph = "ok" =>
  LET h == ParseHeader(hist) IN top = [i |-> h.i, l |-> h.l]

\* An indefinite-length value ends with its terminator, a definite one after its contents.
ValueShape == ph = "ok" =>
  LET l == LenOf(SubSeq(hist, top.i + 1, top.i + top.l)) IN
    IF IsIndef(l) THEN SubSeq(hist, Len(hist) - 1, Len(hist)) = Eoc
    ELSE Len(hist) = top.i + top.l + SmallLen(l)

DepthSane == depth \in -1..MaxTlv /\ (mode = "der" => depth \in {-1, 0})

Emit == Decided =>
  PrintT("C " \o ToJson([k |-> "tlv", m |-> mode, in |-> hist, res |-> IF ph = "ok" THEN "ok" ELSE err,
    i |-> IF ph = "ok" THEN top.i ELSE 0, l |-> IF ph = "ok" THEN top.l ELSE 0]))
=============================================================================
