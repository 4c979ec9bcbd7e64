-------------------------------- MODULE Scalar --------------------------------
(***************************************************************************)
(* Contents octets of INTEGER and BOOLEAN (X.690 8.2, 8.3, 11.1).          *)
(*                                                                         *)
(* A value of a w-octet integer type is its w octets, big endian: two's    *)
(* complement for a signed type, magnitude for an unsigned one.            *)
(***************************************************************************)
EXTENDS Codec, TLC, Json

CONSTANTS
  Modes,        \* subset of {"enc", "dec", "bool"}
  Edge,         \* octets with which strings are built
  Runs,         \* octets that come in runs
  FullDec,      \* strings of up to this many octets are all decoded
  FullEnc       \* values of up to this many octets are all encoded

Widths == {1, 2, 4, 8, 16}
MaxContents == 18

VARIABLES mode, w, s, part
vars == <<mode, w, s, part>>

(***************************************************************************)
(* Strings grow from the left: a run, some single octets, a run.           *)
(***************************************************************************)
Room == IF mode = "enc" THEN w ELSE MaxContents

Init ==
  /\ mode \in Modes
  /\ w \in (IF mode = "enc" THEN Widths ELSE {0})
  /\ s = <<>>
  /\ part = 0

Full == IF mode = "enc" THEN (IF w <= FullEnc THEN w ELSE 0) ELSE IF mode = "dec" THEN FullDec ELSE 1

AnyOctet(o) ==
  /\ part = 0 /\ Len(s) < Full
  /\ s' = Append(s, o)
  /\ UNCHANGED <<mode, w, part>>

HeadRun(o, k) ==
  /\ part = 0 /\ s = <<>> /\ k <= Room /\ Room > Full
  /\ s' = Rep(o, k)
  /\ part' = 1
  /\ UNCHANGED <<mode, w>>

EdgeOctet(o) ==
  /\ part \in {0, 1, 2} /\ Len(s) < Room /\ Room > Full
  /\ part = 0 => s = <<>>
  /\ s' = Append(s, o)
  /\ part' = IF part = 2 THEN 3 ELSE 2
  /\ UNCHANGED <<mode, w>>

TailRun(o, k) ==
  /\ part \in {2, 3} /\ Len(s) + k <= Room
  /\ mode = "enc" => Len(s) + k = Room
  /\ s' = s \o Rep(o, k)
  /\ part' = 4
  /\ UNCHANGED <<mode, w>>

Next ==
  \/ \E o \in Offer(0..255, vars) : AnyOctet(o)
  \/ \E o \in Offer(Runs, vars), k \in Offer(1..MaxContents, vars) : HeadRun(o, k)
  \/ \E o \in Offer(Edge, vars) : EdgeOctet(o)
  \/ \E o \in Offer(Runs, vars), k \in Offer(1..MaxContents, vars) : TailRun(o, k)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the codec.                                                *)
(***************************************************************************)
Ready == mode # "enc" \/ Len(s) = w
Signs == {TRUE, FALSE}

EncodeDecode == mode = "enc" /\ Ready =>
  \A g \in Signs :
    /\ DecInt(g, w, EncInt(g, s)) = [res |-> "ok", v |-> s]
    /\ ~RedundantHead(EncInt(g, s))

\* Whatever is accepted is the one encoding of the value it decodes to.
DecodeEncode == mode = "dec" =>
  \A g \in Signs, x \in Widths :
    LET d == DecInt(g, x, s) IN d.res = "ok" => EncInt(g, d.v) = s

\* A wider type accepts more, and a failure to decode is never width dependent otherwise.
Monotone == mode = "dec" =>
  \A g \in Signs, x, y \in Widths :
    x <= y => LET a == DecInt(g, x, s).res
                  b == DecInt(g, y, s).res
              IN (a = "ok" => b = "ok") /\ (a \notin {"ok", Overflow} => b = a)

BoolAgree == mode = "bool" =>
  /\ DecBool("der", s).res = "ok" => DecBool("ber", s) = DecBool("der", s)
  /\ DecBool("der", s).res = "ok" => EncBool(DecBool("der", s).v) = s

WidthSeq == <<1, 2, 4, 8, 16>>

Emit ==
  /\ mode = "enc" /\ Ready =>
       PrintT("C " \o ToJson([k |-> "inte", w |-> w, v |-> s, i |-> EncInt(TRUE, s), u |-> EncInt(FALSE, s)]))
  /\ mode = "dec" =>
       PrintT("C " \o ToJson([k |-> "intd", in |-> s,
         i |-> [x \in 1..5 |-> LET d == DecInt(TRUE, WidthSeq[x], s) IN <<d.res, d.v>>],
         u |-> [x \in 1..5 |-> LET d == DecInt(FALSE, WidthSeq[x], s) IN <<d.res, d.v>>]]))
  /\ mode = "bool" =>
       PrintT("C " \o ToJson([k |-> "bool", in |-> s, ber |-> DecBool("ber", s), der |-> DecBool("der", s),
         t |-> EncBool(TRUE), f |-> EncBool(FALSE)]))
=============================================================================
