--------------------------------- MODULE Bulk ---------------------------------
(***************************************************************************)
(* Values too large to be spelled out.  The members of a collection are    *)
(* the numbers first, first + 1, ..; a behaviour fills the collection in   *)
(* portions.  Encodings are kept as runs of members of equal size.         *)
(***************************************************************************)
EXTENDS Types, Json

CONSTANTS
  Kinds,     \* "vec", "deque", "linked", "bset", "hset", "bmap", "hmap", "str", "oct", "nest", "bentry", "hentry"
  Firsts,    \* where the numbers start
  Portions,  \* how many are put in at once
  MaxSteps

VARIABLES kind, first, n, m, steps
vars == <<kind, first, n, m, steps>>

Numbers == {"vec", "deque", "linked", "bset", "hset", "bmap", "hmap"}
Entries == {"bentry", "hentry"}

\* m is a second size: how many vectors are nested, how long the value of an entry is.
Init ==
  /\ kind \in Kinds
  /\ first \in (IF kind \in Numbers THEN Firsts ELSE {0})
  /\ n = 0 /\ m = 1 /\ steps = 0

Fill(k) == steps < MaxSteps /\ n' = n + k /\ steps' = steps + 1 /\ UNCHANGED <<kind, first, m>>
Widen(k) == kind \in Entries \cup {"nest"} /\ steps < MaxSteps /\ m' = m + k /\ steps' = steps + 1 /\ UNCHANGED <<kind, first, n>>

Next == \E k \in Offer(Portions, vars) : Fill(k) \/ Widen(k)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------- sizes
\* The numbers that have w contents octets are those below Limit(w) and not below Limit(w - 1).
Limit(w) == <<0, 128, 32768, 8388608, 1000000000>>[w + 1]
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
\* << from, to (not included), width >>
Ranges == SelectSeq([w \in 1..4 |-> <<Larger(first, Limit(w - 1)), Smaller(first + n, Limit(w)), w>>], LAMBDA r : r[1] < r[2])
SizeOfHeader(c) == 1 + Len(EncLen(Def(BitsOf(c))))
Element(c) == SizeOfHeader(c) + c
Member(w) == IF kind \in {"bmap", "hmap"} THEN Element(Element(w) + 3) ELSE Element(w)
RECURSIVE Sum(_)
Sum(rs) == IF rs = <<>> THEN 0 ELSE (rs[1][2] - rs[1][1]) * Member(rs[1][3]) + Sum(Tail(rs))
Size ==
  CASE kind \in Numbers -> Sum(Ranges)
    [] kind \in {"str", "oct"} -> n
    [] kind = "nest" -> m * Element(3 * n)
    [] kind \in Entries -> Element(Element(n) + Element(m))
Id == CASE kind = "str" -> 12
        [] kind = "oct" -> 4
        [] kind \in {"hset", "hmap", "hentry"} -> 49
        [] OTHER -> 48
LengthOcts(c) == EncLen(Def(BitsOf(c)))

\* -------------------------------------------------------- what it stands for
RECURSIVE Octs(_)
Octs(x) == IF x < 256 THEN <<x>> ELSE Octs(x \div 256) \o <<x % 256>>
Number(x) == EncInt(FALSE, Octs(x))
T == CASE kind = "vec" -> Vec(U32) [] kind = "deque" -> Deque(U32) [] kind = "linked" -> Linked(U32) [] kind = "bset" -> BSet(U32) [] kind = "hset" -> HSet(U32)
       [] kind = "bmap" -> BMap(U32, BoolT) [] kind = "hmap" -> HMap(U32, BoolT) [] kind = "str" -> StrT [] kind = "oct" -> OctT
       [] kind = "nest" -> Vec(Vec(U8)) [] kind = "bentry" -> BMap(StrT, OctT) [] kind = "hentry" -> HMap(StrT, OctT)
Value ==
  CASE kind \in {"vec", "deque", "linked", "bset", "hset"} -> [i \in 1..n |-> Number(first + i - 1)]
    [] kind \in {"bmap", "hmap"} -> [i \in 1..n |-> <<Number(first + i - 1), (first + i - 1) % 2 = 1>>]
    [] kind = "str" -> Rep(97, n)
    [] kind = "oct" -> Rep(0, n)
    [] kind = "nest" -> Rep(Rep(<<7>>, n), m)
    [] kind \in Entries -> << <<Rep(97, n), Rep(0, m)>> >>

SizesAreGrammar == n <= 150 /\ m <= 150 /\ n * m <= 300 =>
  LET e == Encode(T, Value)
      h == <<Id>> \o LengthOcts(Size)
  IN Len(e) = Len(h) + Size /\ Take(e, Len(h)) = h

Emit == steps > 0 =>
  PrintT("C " \o ToJson([k |-> "blk", kind |-> kind, f |-> first, n |-> n, m |-> m, head |-> <<Id>> \o LengthOcts(Size), size |-> Size, ranges |-> Ranges,
    inner |-> CASE kind = "nest" -> LengthOcts(3 * n) [] kind \in Entries -> LengthOcts(Element(n) + Element(m)) [] OTHER -> <<>>,
    a |-> LengthOcts(n), b |-> LengthOcts(m)]))
=============================================================================
