------------------------------ MODULE Objects ------------------------------
(***************************************************************************)
(* Owned values and their histories: elements (DER, BER of definite or     *)
(* indefinite length), bare identifiers and bare contents, held in slots,  *)
(* edited in place, resized, copied and converted.                         *)
(*                                                                         *)
(* Contents are kept symbolically, as segments <<source, from, count>>:    *)
(* the count octets of a source from position `from` on.  So histories     *)
(* over large contents stay small, and an octet that ends up in the wrong  *)
(* place is still noticed, as all sources differ.                          *)
(***************************************************************************)
EXTENDS Octets, TLC, Json

CONSTANTS
  Kinds,      \* kinds of the object in slot 1
  Slots,      \* 1 or 2
  InitIds,    \* identifiers <<class, pc, number>>
  InitSizes,  \* sizes of the initial contents
  Sizes,      \* sizes that resizing aims at
  Pokes,      \* subset of {"first", "middle", "last"}
  Classes,    \* classes set in place
  Flags,      \* primitive/constructed flags set in place
  Numbers,    \* tag numbers set on bare identifiers
  Copies,     \* subset of {"clone", "owned", "vec", "bytes", "into"}
  MaxOps

VARIABLES slot, hist

vars == <<slot, hist>>

Nothing == [kind |-> "none"]
HasId(o) == o.kind \in {"der", "ber", "berind", "id"}
HasContents(o) == o.kind \in {"der", "ber", "berind", "con"}
Resizable(o) == o.kind \in {"der", "ber", "berind"}

RECURSIVE Total(_)
Total(segs) == IF segs = <<>> THEN 0 ELSE segs[1][3] + Total(Tail(segs))
Size(o) == Total(o.segs)

\* The first n octets of the contents.
RECURSIVE Cut(_, _)
Cut(segs, n) ==
  IF n = 0 \/ segs = <<>> THEN <<>>
  ELSE IF segs[1][3] > n THEN <<<<segs[1][1], segs[1][2], n>>>>
  ELSE <<segs[1]>> \o Cut(Tail(segs), n - segs[1][3])

\* The contents without the first n octets.
RECURSIVE Skip(_, _)
Skip(segs, n) ==
  IF n = 0 \/ segs = <<>> THEN segs
  ELSE IF segs[1][3] > n THEN <<<<segs[1][1], segs[1][2] + n, segs[1][3] - n>>>> \o Tail(segs)
  ELSE Skip(Tail(segs), n - segs[1][3])

Seg(src, n) == IF n = 0 THEN <<>> ELSE <<<<src, 0, n>>>>

\* What the octets of an object are.
IdOctets(o) == IF HasId(o) THEN EncId(o.class, o.pc, o.num) ELSE <<>>
LenOctets(o) ==
  IF o.kind = "berind" THEN EncLen(Indef)
  ELSE IF Resizable(o) THEN EncLen(Def(BitsOf(Size(o))))
  ELSE <<>>

Shown(o) ==
  IF o.kind = "none" THEN [kind |-> "none"]
  ELSE [kind |-> o.kind, id |-> IdOctets(o), len |-> LenOctets(o), segs |-> o.segs]

Objects ==
  [kind : Kinds \cap {"der", "ber", "berind"}, id : InitIds, size : InitSizes]
    \cup [kind : Kinds \cap {"id"}, id : InitIds, size : {0}]
    \cup [kind : Kinds \cap {"con"}, id : {<<0, 0, <<>>>>}, size : InitSizes]

Made(x) == [kind |-> x.kind, class |-> x.id[1], pc |-> x.id[2], num |-> x.id[3], segs |-> Seg(1, x.size)]

Init ==
  \E x \in Objects :
    /\ slot = <<Made(x)>> \o Rep(Nothing, Slots - 1)
    /\ hist = <<[op |-> "make", st |-> [i \in 1..Slots |-> Shown(slot[i])]]>>

\* Performs an operation, described by op, that leaves slot s holding o.
Do(op, s, o) ==
  /\ Len(hist) <= MaxOps
  /\ slot' = [slot EXCEPT ![s] = o]
  /\ hist' = Append(hist, op @@ [s |-> s, st |-> [i \in 1..Slots |-> Shown(slot'[i])]])

Fresh == Len(hist) + 1

Push(s) ==
  /\ Resizable(slot[s])
  /\ Do([op |-> "push", src |-> Fresh], s, [slot[s] EXCEPT !.segs = @ \o Seg(Fresh, 1)])

Extend(s, n) ==
  /\ Resizable(slot[s])
  /\ n >= Size(slot[s])
  /\ Do([op |-> "extend", src |-> Fresh, n |-> n - Size(slot[s])], s,
        [slot[s] EXCEPT !.segs = @ \o Seg(Fresh, n - Size(slot[s]))])

Truncate(s, n) ==
  /\ Resizable(slot[s])
  /\ Do([op |-> "truncate", n |-> n], s,
        [slot[s] EXCEPT !.segs = IF n < Size(slot[s]) THEN Cut(@, n) ELSE @])

Position(p, n) == IF p = "first" THEN 0 ELSE IF p = "last" THEN n - 1 ELSE n \div 2

Poke(s, p) ==
  /\ HasContents(slot[s])
  /\ Size(slot[s]) > 0
  /\ LET at == Position(p, Size(slot[s])) IN
     Do([op |-> "poke", src |-> Fresh, n |-> at], s,
        [slot[s] EXCEPT !.segs = Cut(@, at) \o Seg(Fresh, 1) \o Skip(@, at + 1)])

SetClass(s, c) ==
  HasId(slot[s]) /\ Do([op |-> "class", n |-> c], s, [slot[s] EXCEPT !.class = c])

SetFlag(s, p) ==
  HasId(slot[s]) /\ Do([op |-> "pc", n |-> p], s, [slot[s] EXCEPT !.pc = p])

SetNumber(s, num) ==
  /\ slot[s].kind = "id"
  /\ Do([op |-> "number", num |-> NumOctets(num)], s, [slot[s] EXCEPT !.num = num])

\* Slot t gets a copy of slot s; "into" turns DER into BER.
Copy(s, t, how) ==
  /\ s # t /\ slot[s].kind # "none"
  /\ how = "into" => slot[s].kind = "der"
  /\ how = "vec" => slot[s].kind # "id"
  /\ Do([op |-> "copy", from |-> s, how |-> how], t,
        IF how = "into" THEN [slot[s] EXCEPT !.kind = "ber"] ELSE slot[s])

Next ==
  \E s \in 1..Slots :
    /\ slot[s].kind # "none"
    /\ \/ Push(s)
       \/ \E n \in Offer(Sizes, vars) : Extend(s, n) \/ Truncate(s, n)
       \/ \E p \in Offer(Pokes, vars) : Poke(s, p)
       \/ \E c \in Offer(Classes, vars) : SetClass(s, c)
       \/ \E p \in Offer(Flags, vars) : SetFlag(s, p)
       \/ \E n \in Offer(Numbers, vars) : SetNumber(s, n)
       \/ \E t \in 1..Slots, how \in Offer(Copies, vars) : Copy(s, t, how)

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
\* The header of every definite value describes its identifier and contents.
WellFormed ==
  \A s \in 1..Slots :
    Resizable(slot[s]) =>
      LET id == IdOctets(slot[s])
          ln == LenOctets(slot[s])
      IN /\ ParseId(id \o ln) = Ok(Len(id))
         /\ ParseLen(ln) = Ok(Len(ln))
         /\ IF slot[s].kind = "berind" THEN LenOf(ln) = Indef ELSE SmallLen(LenOf(ln)) = Size(slot[s])

\* The identifier means the latest components.
IdMeans ==
  \A s \in 1..Slots :
    HasId(slot[s]) =>
      LET id == IdOctets(slot[s]) IN
        ClassOf(id) = slot[s].class /\ PcOf(id) = slot[s].pc /\ IdNum(id) = slot[s].num

\* No segment is empty or overlaps another of the same source.
SegmentsSane ==
  \A s \in 1..Slots :
    slot[s].kind # "none" =>
      \A i, j \in 1..Len(slot[s].segs) :
        LET a == slot[s].segs[i]
            b == slot[s].segs[j]
        IN a[3] > 0 /\ (i < j /\ a[1] = b[1] => a[2] + a[3] <= b[2])

\* An operation changes the slot it is meant for only.
OthersUntouched ==
  [][\A s \in 1..Slots : hist'[Len(hist')].s # s => slot'[s] = slot[s]]_vars

\* Editing one component leaves the others and the contents alone.
OneComponent ==
  [][LET h == hist'[Len(hist')]
         o == slot[h.s]
         n == slot'[h.s]
     IN /\ h.op = "class" => n = [o EXCEPT !.class = h.n]
        /\ h.op = "pc" => n = [o EXCEPT !.pc = h.n]
        /\ h.op \in {"push", "extend", "truncate", "poke"} => IdOctets(n) = IdOctets(o)]_vars

(* ------------------------------- emission ------------------------------ *)
Emit == Len(hist) = MaxOps + 1 => PrintT("C " \o ToJson([k |-> "obj", h |-> hist]))
=============================================================================
