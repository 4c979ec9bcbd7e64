-------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* The types that can be serialized, their values, their encoding, and     *)
(* what decoding an element into each of them has to give.                 *)
(*                                                                         *)
(* A type is a record whose field t says of which sort it is:              *)
(*   bool                                                                  *)
(*   int     s signed, w octets, n name                                    *)
(*   str, oct                                                              *)
(*   list    c "vec", "deque", "linked" (ordered), e element type          *)
(*   set     c "bset" (ordered), "hset", e                                 *)
(*   map     c "bmap" (ordered), "hmap", k and v types                     *)
(*   unk     e, a value of which hides its sizes                           *)
(*   new     e, a type of its own that is encoded as e is                  *)
(*   struct  form, a attributes, fs fields                                 *)
(*   enum    vs variants, each with form, attributes and fields            *)
(*   trans   form, fs fields, one of which is live in either direction     *)
(*   conv    e a type whose values are converted: out and in               *)
(*                                                                         *)
(* Values: a truth value; the minimal contents octets of an integer; the   *)
(* octets of a text; sequences of values for lists, sets (in order) and    *)
(* structures; sequences of pairs for maps (in order of the keys); a       *)
(* variant is <<index, sequence of fields>>; a value that hides the sizes  *)
(* is <<what it hides, value>>.                                            *)
(***************************************************************************)
EXTENDS Codec, SequencesExt, TLC

\* ------------------------------------------------------------- vocabulary
BoolT == [t |-> "bool"]
IntT(name, signed, width) == [t |-> "int", n |-> name, s |-> signed, w |-> width]
I8 == IntT("i8", TRUE, 1)       U8 == IntT("u8", FALSE, 1)
I16 == IntT("i16", TRUE, 2)     U16 == IntT("u16", FALSE, 2)
I32 == IntT("i32", TRUE, 4)     U32 == IntT("u32", FALSE, 4)
I64 == IntT("i64", TRUE, 8)     U64 == IntT("u64", FALSE, 8)
I128 == IntT("i128", TRUE, 16)  U128 == IntT("u128", FALSE, 16)
ISize == IntT("isize", TRUE, WordBits \div 8)
USize == IntT("usize", FALSE, WordBits \div 8)
StrT == [t |-> "str"]
OctT == [t |-> "oct"]
ListT(c, e) == [t |-> "list", c |-> c, e |-> e]
Vec(e) == ListT("vec", e)
Deque(e) == ListT("deque", e)
Linked(e) == ListT("linked", e)
BSet(e) == [t |-> "set", c |-> "bset", e |-> e]
HSet(e) == [t |-> "set", c |-> "hset", e |-> e]
BMap(k, v) == [t |-> "map", c |-> "bmap", k |-> k, v |-> v]
HMap(k, v) == [t |-> "map", c |-> "hmap", k |-> k, v |-> v]
Unk(e) == [t |-> "unk", e |-> e]
New(e) == [t |-> "new", e |-> e]

Plain == {"bool", "int", "str", "oct"}

RECURSIVE Name(_)
Name(T) ==
  CASE T.t = "int" -> T.n
    [] T.t \in {"list", "set"} -> T.c \o "(" \o Name(T.e) \o ")"
    [] T.t = "map" -> T.c \o "(" \o Name(T.k) \o "," \o Name(T.v) \o ")"
    [] T.t = "unk" -> "unk(" \o Name(T.e) \o ")"
    [] OTHER -> T.t

\* Does an encoding depend on the order in which a table is walked?
RECURSIVE Unordered(_)
FieldUnordered(f) == f.ser /\ Unordered(IF f.out = <<>> THEN f.ty ELSE f.out[1])
Unordered(T) ==
  CASE T.t = "list" -> Unordered(T.e)
    [] T.t \in {"unk", "new"} -> Unordered(T.e)
    [] T.t = "set" -> T.c = "hset" \/ Unordered(T.e)
    [] T.t = "map" -> T.c = "hmap" \/ Unordered(T.k) \/ Unordered(T.v)
    [] T.t \in {"struct", "trans"} -> \E i \in 1..Len(T.fs) : FieldUnordered(T.fs[i])
    [] T.t = "enum" -> \E j \in 1..Len(T.vs) : \E i \in 1..Len(T.vs[j].fs) : FieldUnordered(T.vs[j].fs[i])
    [] T.t = "conv" -> IF T.out = <<>> THEN Unordered(T.e) ELSE Unordered(T.out[1])
    [] OTHER -> FALSE

\* --------------------------------------------------------- order of values
RECURSIVE OctLess(_, _)
OctLess(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE OctLess(Tail(a), Tail(b))

IntLess(a, b) ==
  LET na == a[1] >= 128
      nb == b[1] >= 128
  IN IF na # nb THEN na
     ELSE IF Len(a) # Len(b) THEN (Len(a) < Len(b)) # na
     ELSE OctLess(a, b)

RECURSIVE Less(_, _, _)
RECURSIVE SeqLess(_, _, _)
SeqLess(T, a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN Less(T, a[1], b[1])
  ELSE SeqLess(T, Tail(a), Tail(b))

Less(T, a, b) ==
  CASE T.t = "bool" -> ~a /\ b
    [] T.t = "int" -> IntLess(a, b)
    [] T.t \in {"str", "oct"} -> OctLess(a, b)
    [] T.t = "unk" -> Less(T.e, a[2], b[2])
    [] T.t = "new" -> Less(T.e, a, b)
    [] OTHER -> SeqLess(T.e, a, b)

\* What remains of the members of a set; of the entries of a map, later ones winning.
RECURSIVE Collapse(_, _)
Collapse(T, s) ==
  IF Len(s) <= 1 THEN s
  ELSE LET c == Collapse(T, SubSeq(s, 1, Len(s) - 1))
           x == s[Len(s)]
           low == SelectSeq(c, LAMBDA y : Less(T, y, x))
           high == SelectSeq(c, LAMBDA y : Less(T, x, y))
       IN low \o <<x>> \o high

RECURSIVE CollapseMap(_, _)
CollapseMap(K, s) ==
  IF Len(s) <= 1 THEN s
  ELSE LET c == CollapseMap(K, SubSeq(s, 1, Len(s) - 1))
           x == s[Len(s)]
           low == SelectSeq(c, LAMBDA y : Less(K, y[1], x[1]))
           high == SelectSeq(c, LAMBDA y : Less(K, x[1], y[1]))
       IN low \o <<x>> \o high

\* ------------------------------------------------------------- identifiers
Names == <<
  <<"EOC", 0>>, <<"Boolean", 1>>, <<"Integer", 2>>, <<"BitString", 3>>, <<"OctetString", 4>>,
  <<"Null", 5>>, <<"Real", 9>>, <<"UTF8String", 12>>, <<"Sequence", 48>>, <<"Set", 49>> >>
Classes == <<"UNIVERSAL", "APPLICATION", "CONTEXT_SPECIFIC", "PRIVATE">>
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

\* a.id, a.cls, a.pc are words or ""; a.num is <<>> or << bits of a number >>.
NoAttr == [id |-> "", cls |-> "", pc |-> "", num |-> <<>>]
IdOf(a) ==
  LET base == IF a.id = "" THEN 48 ELSE Names[CHOOSE i \in 1..Len(Names) : Names[i][1] = a.id][2]
      class == IF a.cls = "" THEN base \div 64 ELSE Index(Classes, a.cls) - 1
      pc == IF a.pc = "" THEN (base \div 32) % 2 ELSE IF a.pc = "CONSTRUCTED" THEN 1 ELSE 0
      num == IF a.num = <<>> THEN BitsOf(base % 32) ELSE a.num[1]
  IN EncId(class, pc, num)

\* ---------------------------------------------------------------- encoding
Enc(id, c) == id \o EncLen(Def(BitsOf(Len(c)))) \o c
EncIndef(id, c) == id \o <<128>> \o c \o Eoc
IdSeq == <<48>>
IdSet == <<49>>

Concat(ss) == FlattenSeq(ss)

Good(v) == [ok |-> TRUE, v |-> v, errs |-> {}]
Bad(es) == [ok |-> FALSE, v |-> <<>>, errs |-> es]

\* Conversions of values; a failing one leaves an error of foreign origin.
Not(v) == Minimal([i \in 1..Len(v) |-> 255 - v[i]])
Convert(f, v) ==
  CASE f = "same" -> Good(v)
    [] f = "not" -> Good(Not(v))
    [] f = "fit8" -> IF DecInt(TRUE, 1, v).res = "ok" THEN Good(v) ELSE Bad({"Anyhow"})
    [] f = "fit16" -> IF DecInt(TRUE, 2, v).res = "ok" THEN Good(v) ELSE Bad({"Anyhow"})
    [] f = "notfit8" -> IF DecInt(TRUE, 1, v).res = "ok" THEN Good(Not(v)) ELSE Bad({"Anyhow"})
    [] f = "num" -> Good(IF v THEN <<1>> ELSE <<0>>)
    [] f = "octets" -> Good([i \in 1..Len(v) |-> v[i][Len(v[i])]])
    [] f = "numbers" -> Good([i \in 1..Len(v) |-> EncInt(FALSE, <<v[i]>>)])
    [] f = "utf8" -> IF IsUtf8(v) THEN Good(v) ELSE Bad({"Anyhow"})
    [] f = "wrap" -> Good(<<v>>)
    [] f = "unwrap" -> IF Len(v) = 1 THEN Good(v[1]) ELSE Bad({"Anyhow"})
    [] f = "rev" -> Good([i \in 1..Len(v) |-> v[Len(v) + 1 - i]])
    [] f = "one" -> IF Len(v) = 1 THEN Good(v) ELSE Bad({"Anyhow"})
    [] f = "two" -> IF Len(v) = 2 THEN Good(v) ELSE Bad({"Anyhow"})
    [] f = "open" -> Good(v[1])
    [] f = "flat" -> Good(<<EncInt(FALSE, <<v[1]>>)>> \o v[2])
    [] f = "unflat" -> IF Len(v) = 2 /\ v[1] \in {<<1>>, <<2>>} THEN Good(<<v[1][1], <<v[2]>>>>) ELSE Bad({"Anyhow"})
    [] f = "fail" -> Bad({"Anyhow"})

Into(f, v) == Convert(f, v).v

\* A field: ty its type, ser and de whether it takes part, dv its default,
\* out and in << type converted to or from, conversion >> or <<>>.
RECURSIVE Encode(_, _)
RECURSIVE EncFields(_, _)
EncField(f, v) ==
  IF ~f.ser THEN <<>>
  ELSE IF f.out = <<>> THEN Encode(f.ty, v)
  ELSE Encode(f.out[1], Into(f.out[2], v))
EncFields(fs, v) == Concat([i \in 1..Len(fs) |-> EncField(fs[i], v[i])])

EncPair(T, p) == Enc(IdSeq, Encode(T.k, p[1]) \o Encode(T.v, p[2]))

Encode(T, v) ==
  CASE T.t = "bool" -> Enc(<<1>>, EncBool(v))
    [] T.t = "int" -> Enc(<<2>>, v)
    [] T.t = "str" -> Enc(<<12>>, v)
    [] T.t = "oct" -> Enc(<<4>>, v)
    [] T.t = "list" \/ (T.t = "set" /\ T.c = "bset") -> Enc(IdSeq, Concat([i \in 1..Len(v) |-> Encode(T.e, v[i])]))
    [] T.t = "set" /\ T.c = "hset" ->
         Enc(IdSet, Concat(SortSeq([i \in 1..Len(v) |-> Encode(T.e, v[i])], OctLess)))
    [] T.t = "map" /\ T.c = "bmap" -> Enc(IdSeq, Concat([i \in 1..Len(v) |-> EncPair(T, v[i])]))
    [] T.t = "map" /\ T.c = "hmap" ->
         Enc(IdSet, Concat(SortSeq([i \in 1..Len(v) |-> EncPair(T, v[i])], OctLess)))
    [] T.t = "unk" -> Encode(T.e, v[2])
    [] T.t = "new" -> Encode(T.e, v)
    [] T.t = "struct" -> Enc(IdOf(T.a), EncFields(T.fs, v))
    [] T.t = "enum" -> LET w == T.vs[v[1]] IN Enc(IdOf(w.a), EncFields(w.fs, v[2]))
    [] T.t = "trans" -> EncFields(T.fs, v)
    [] T.t = "conv" -> IF T.out = <<>> THEN Encode(T.e, v) ELSE Encode(T.out[1], Into(T.out[2], v))

(***************************************************************************)
(* All BER encodings that differ from the above in the form of the length  *)
(* of constructed elements only.                                           *)
(***************************************************************************)
Forms(id, cs) == UNION { {Enc(id, c), EncIndef(id, c)} : c \in cs }
FormsIf(id, cs) == IF PcOf(id) = 1 THEN Forms(id, cs) ELSE { Enc(id, c) : c \in cs }

RECURSIVE Product(_)
Product(ss) == IF ss = <<>> THEN { <<>> } ELSE { a \o b : a \in ss[1], b \in Product(Tail(ss)) }

RECURSIVE Variants(_, _)
VarField(f, v) ==
  IF ~f.ser THEN { <<>> }
  ELSE IF f.out = <<>> THEN Variants(f.ty, v)
  ELSE Variants(f.out[1], Into(f.out[2], v))
VarFields(fs, v) == Product([i \in 1..Len(fs) |-> VarField(fs[i], v[i])])

Variants(T, v) ==
  CASE T.t \in Plain -> { Encode(T, v) }
    [] T.t = "list" \/ (T.t = "set" /\ T.c = "bset") -> Forms(IdSeq, Product([i \in 1..Len(v) |-> Variants(T.e, v[i])]))
    [] T.t = "set" /\ T.c = "hset" -> Forms(IdSet, Product([i \in 1..Len(v) |-> Variants(T.e, v[i])]))
    [] T.t = "map" -> Forms(IF T.c = "bmap" THEN IdSeq ELSE IdSet,
                            Product([i \in 1..Len(v) |->
                              Forms(IdSeq, Product(<<Variants(T.k, v[i][1]), Variants(T.v, v[i][2])>>))]))
    [] T.t = "unk" -> Variants(T.e, v[2])
    [] T.t = "new" -> Variants(T.e, v)
    [] T.t = "struct" -> FormsIf(IdOf(T.a), VarFields(T.fs, v))
    [] T.t = "enum" -> LET w == T.vs[v[1]] IN FormsIf(IdOf(w.a), VarFields(w.fs, v[2]))
    [] T.t = "trans" -> VarFields(T.fs, v)
    [] T.t = "conv" -> IF T.out = <<>> THEN Variants(T.e, v) ELSE Variants(T.out[1], Into(T.out[2], v))

(***************************************************************************)
(* Decoding by rule ("ber" or "der") the element el, which is complete.    *)
(* Where several things are wrong, any of their errors will do.            *)
(***************************************************************************)
WrongId == "UnmatchedId"
Surplus == "ExtraContentsOctet"
BadPair == "InvalidKeyValuePair"

Parts(el) ==
  LET h == ParseHeader(el)
      ind == IsIndef(HeaderLen(el, h))
  IN [id |-> Take(el, h.i), indef |-> ind,
      c |-> SubSeq(el, h.i + h.l + 1, IF ind THEN Len(el) - 2 ELSE Len(el))]

\* The elements one after another in c, up to one that is not complete.
RECURSIVE Elems(_, _)
Elems(rule, c) ==
  IF c = <<>> THEN [els |-> <<>>, errs |-> {}]
  ELSE LET r == Parse(rule, c) IN
       IF ~IsOk(r) THEN [els |-> <<>>, errs |-> {r.res}]
       ELSE LET rest == Elems(rule, Drop(c, r.n))
            IN [els |-> <<Take(c, r.n)>> \o rest.els, errs |-> rest.errs]

Merge(ds) == [i \in 1..Len(ds) |-> ds[i].v]
Errors(ds) == UNION { ds[i].errs : i \in 1..Len(ds) }

RECURSIVE Decode(_, _, _)
RECURSIVE DecFields(_, _, _)
RECURSIVE DecEach(_, _, _)

Primitive(rule, T, p) ==
  LET ids == CASE T.t = "bool" -> { <<1>> }
               [] T.t = "int" -> { <<2>> }
               [] T.t = "str" -> IF rule = "ber" THEN { <<12>>, <<44>> } ELSE { <<12>> }
               [] T.t = "oct" -> IF rule = "ber" THEN { <<4>>, <<36>> } ELSE { <<4>> }
      wrong == (IF p.id \in ids THEN {} ELSE {WrongId}) \cup (IF p.indef THEN {NoIndefinite} ELSE {})
  IN IF wrong # {} THEN Bad(wrong)
     ELSE CASE T.t = "bool" -> LET d == DecBool(rule, p.c) IN IF d.res = "ok" THEN Good(d.v) ELSE Bad({d.res})
            [] T.t = "int" -> LET d == DecInt(T.s, T.w, p.c) IN IF d.res = "ok" THEN Good(p.c) ELSE Bad({d.res})
            [] T.t = "str" -> IF IsUtf8(p.c) THEN Good(p.c) ELSE Bad({"InvalidUtf8"})
            [] T.t = "oct" -> Good(p.c)

DecEach(rule, T, els) == [i \in 1..Len(els) |-> Decode(rule, T, els[i])]

Collection(rule, T, p, id) ==
  IF p.id # id THEN Bad({WrongId})
  ELSE LET es == Elems(rule, p.c)
           ds == DecEach(rule, T.e, es.els)
           errs == es.errs \cup Errors(ds)
       IN IF errs # {} THEN Bad(errs)
          ELSE Good(IF T.t = "list" THEN Merge(ds) ELSE Collapse(T.e, Merge(ds)))

Pair(rule, T, el) ==
  LET p == Parts(el) IN
  IF p.id # IdSeq THEN Bad({BadPair})
  ELSE LET es == Elems(rule, p.c) IN
       IF es.errs # {} THEN Bad(es.errs \cup {BadPair})
       ELSE IF Len(es.els) < 2 THEN Bad({Unterminated, BadPair})
       ELSE IF Len(es.els) > 2 THEN Bad({BadPair})
       ELSE LET k == Decode(rule, T.k, es.els[1])
                v == Decode(rule, T.v, es.els[2])
            IN IF k.ok /\ v.ok THEN Good(<<k.v, v.v>>) ELSE Bad(k.errs \cup v.errs)

Map(rule, T, p, id) ==
  IF p.id # id THEN Bad({WrongId})
  ELSE LET es == Elems(rule, p.c)
           ds == [i \in 1..Len(es.els) |-> Pair(rule, T, es.els[i])]
           errs == es.errs \cup Errors(ds)
       IN IF errs # {} THEN Bad(errs) ELSE Good(CollapseMap(T.k, Merge(ds)))

\* A field out of the element el.
DecField(rule, f, el) ==
  IF f.in = <<>> THEN Decode(rule, f.ty, el)
  ELSE LET d == Decode(rule, f.in[1], el) IN IF d.ok THEN Convert(f.in[2], d.v) ELSE d

Live(fs) == { i \in 1..Len(fs) : fs[i].de }
Place(fs, i) == Cardinality({ j \in Live(fs) : j <= i })

DecFields(rule, fs, c) ==
  LET es == Elems(rule, c)
      n == Cardinality(Live(fs))
      have == IF Len(es.els) < n THEN Len(es.els) ELSE n
      d(i) == IF ~fs[i].de THEN Good(fs[i].dv)
              ELSE IF Place(fs, i) <= have THEN DecField(rule, fs[i], es.els[Place(fs, i)])
              ELSE Bad({})
      ds == [i \in 1..Len(fs) |-> d(i)]
      shape == IF Len(es.els) > n THEN {Surplus}
               ELSE IF Len(es.els) = n THEN (IF es.errs = {} THEN {} ELSE {Surplus} \cup es.errs)
               ELSE IF es.errs = {} THEN {Unterminated} ELSE es.errs
      errs == shape \cup Errors(ds)
  IN IF errs # {} THEN Bad(errs) ELSE Good(Merge(ds))

Decode(rule, T, el) ==
  LET p == Parts(el) IN
  CASE T.t \in Plain -> Primitive(rule, T, p)
    [] T.t = "list" \/ (T.t = "set" /\ T.c = "bset") -> Collection(rule, T, p, IdSeq)
    [] T.t = "set" /\ T.c = "hset" -> Collection(rule, T, p, IdSet)
    [] T.t = "map" -> Map(rule, T, p, IF T.c = "bmap" THEN IdSeq ELSE IdSet)
    [] T.t = "unk" -> LET d == Decode(rule, T.e, el) IN IF d.ok THEN Good(<<0, d.v>>) ELSE d
    [] T.t = "new" -> Decode(rule, T.e, el)
    [] T.t = "struct" -> IF p.id = IdOf(T.a) THEN DecFields(rule, T.fs, p.c) ELSE Bad({WrongId})
    [] T.t = "enum" ->
         LET ok == { i \in 1..Len(T.vs) : IdOf(T.vs[i].a) = p.id } IN
         IF ok = {} THEN Bad({WrongId})
         ELSE LET i == CHOOSE i \in ok : TRUE
                  d == DecFields(rule, T.vs[i].fs, p.c)
              IN IF d.ok THEN Good(<<i, d.v>>) ELSE d
    [] T.t = "trans" ->
         LET l == CHOOSE i \in Live(T.fs) : TRUE
             d == DecField(rule, T.fs[l], el)
         IN IF d.ok THEN Good([i \in 1..Len(T.fs) |-> IF i = l THEN d.v ELSE T.fs[i].dv]) ELSE d
    [] T.t = "conv" ->
         IF T.in = <<>> THEN Decode(rule, T.e, el)
         ELSE LET d == Decode(rule, T.in[1], el) IN IF d.ok THEN Convert(T.in[2], d.v) ELSE d

(***************************************************************************)
(* Where decoding goes wrong: the ways down to what is at fault, each a    *)
(* sequence of positions in collections and of fields.  A way ends where   *)
(* nothing further inside is to blame.                                     *)
(***************************************************************************)
At(step, ways) == { <<step>> \o w : w \in ways }
Position(i) == ToString(i - 1)
FieldName(form, i) == IF form = "named" THEN "f" \o Position(i) ELSE Position(i)

RECURSIVE Where(_, _, _)

WhereEach(es, W(_)) ==
  UNION { At(Position(i), W(es.els[i])) : i \in 1..Len(es.els) }
    \cup (IF es.errs = {} THEN {} ELSE { <<Position(Len(es.els) + 1)>> })

WherePair(rule, T, el) ==
  LET p == Parts(el)
      es == Elems(rule, p.c)
  IN IF p.id # IdSeq \/ es.errs # {} \/ Len(es.els) # 2 THEN { <<>> }
     ELSE Where(rule, T.k, es.els[1]) \cup Where(rule, T.v, es.els[2])

WhereField(rule, f, el) ==
  IF f.in = <<>> THEN Where(rule, f.ty, el)
  ELSE LET w == Where(rule, f.in[1], el) IN
       IF w # {} THEN w ELSE IF DecField(rule, f, el).ok THEN {} ELSE { <<>> }

WhereFields(rule, form, fs, c) ==
  LET es == Elems(rule, c)
      n == Cardinality(Live(fs))
      Nth(k) == CHOOSE i \in Live(fs) : Place(fs, i) = k
      inside(i) == IF Place(fs, i) <= Len(es.els)
                   THEN At(FieldName(form, i), WhereField(rule, fs[i], es.els[Place(fs, i)]))
                   ELSE {}
  IN UNION { inside(i) : i \in Live(fs) }
       \cup (IF Len(es.els) > n \/ (Len(es.els) = n /\ es.errs # {}) THEN { <<>> }
             ELSE IF Len(es.els) < n THEN { <<FieldName(form, Nth(Len(es.els) + 1))>> }
             ELSE {})

Where(rule, T, el) ==
  LET p == Parts(el)
      es == Elems(rule, p.c)
  IN
  CASE T.t \in Plain -> IF Decode(rule, T, el).ok THEN {} ELSE { <<>> }
    [] T.t \in {"list", "set"} ->
         IF p.id # (IF T.c = "hset" THEN IdSet ELSE IdSeq) THEN { <<>> }
         ELSE WhereEach(es, LAMBDA x : Where(rule, T.e, x))
    [] T.t = "map" ->
         IF p.id # (IF T.c = "hmap" THEN IdSet ELSE IdSeq) THEN { <<>> }
         ELSE WhereEach(es, LAMBDA x : WherePair(rule, T, x))
    [] T.t \in {"unk", "new"} -> Where(rule, T.e, el)
    [] T.t = "struct" -> IF p.id = IdOf(T.a) THEN WhereFields(rule, T.form, T.fs, p.c) ELSE { <<>> }
    [] T.t = "enum" ->
         LET ok == { i \in 1..Len(T.vs) : IdOf(T.vs[i].a) = p.id } IN
         IF ok = {} THEN { <<>> }
         ELSE LET w == T.vs[CHOOSE i \in ok : TRUE] IN WhereFields(rule, w.form, w.fs, p.c)
    [] T.t = "trans" ->
         LET l == CHOOSE i \in Live(T.fs) : TRUE
         IN At(FieldName(T.form, l), WhereField(rule, T.fs[l], el))
    [] T.t = "conv" -> WhereField(rule, [ty |-> T.e, in |-> T.in], el)
=============================================================================
