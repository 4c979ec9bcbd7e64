-------------------------------- MODULE Derive --------------------------------
(***************************************************************************)
(* Programs that derive Serialize and Deserialize.  A behaviour writes a   *)
(* program: it opens a container, adds fields or variants, and may have    *)
(* the whole converted or put into a collection.  Every draft that is a    *)
(* legal program is compiled, its values are encoded, and elements made    *)
(* from its parts are offered to it.                                       *)
(***************************************************************************)
EXTENDS Types, Json

CONSTANTS
  Openings,        \* containers without fields: see Open
  FieldMenu(_),    \* the fields that may come next in a draft
  MaxFields,
  VariantMenu(_),  \* the variants that may come next in a draft
  MaxVariants,
  ConvMenu(_),     \* conversions that may be put on a draft
  OuterMenu(_),    \* types around the one drafted
  StrangeIds       \* identifiers to offer

VARIABLE draft
vars == <<draft>>

\* -------------------------------------------------------------- vocabulary
Plainly == <<>>
DefaultOf(T) == CASE T.t = "bool" -> FALSE [] T.t = "int" -> <<0>> [] OTHER -> <<>>
\* What the function named by default = ".." gives.
RECURSIVE PathVal(_)
PathVal(T) == CASE T.t = "bool" -> TRUE
                [] T.t = "int" -> <<42>>
                [] T.t \in {"str", "oct"} -> <<122, 122>>
                [] T.t = "new" -> PathVal(T.e)
                [] T.t = "list" -> <<PathVal(T.e)>>
                [] OTHER -> <<>>

\* sk: "", "skip", "ser", "de" or "both"; dp: whether default = ".." is given.
Field(ty, sk, dp) ==
  [ty |-> ty, sk |-> sk, dp |-> dp, ser |-> sk \notin {"skip", "ser", "both"}, de |-> sk \notin {"skip", "de", "both"},
   dv |-> IF dp THEN PathVal(ty) ELSE DefaultOf(ty), out |-> <<>>, in |-> <<>>]
F(ty) == Field(ty, "", FALSE)
\* out and in: <<>> or << type, conversion, attribute >>.
FieldConv(ty, out, in) == [F(ty) EXCEPT !.out = out, !.in = in]

\* lit is how the number is written, ord whether the arguments are in reverse order.
Attr(id, cls, pc, num, lit, ord) == [id |-> id, cls |-> cls, pc |-> pc, num |-> num, lit |-> lit, ord |-> ord]
NoArgs == Attr("", "", "", <<>>, "dec", FALSE)
Num(bits) == Attr("", "CONTEXT_SPECIFIC", "", <<bits>>, "dec", FALSE)

\* gen is how the type is generic: "", "type", "where", "const" or "life".
Open(c, form, a, gen) == [c |-> c, form |-> form, a |-> a, gen |-> gen, fs |-> <<>>, vs |-> <<>>, out |-> <<>>, in |-> <<>>, outer |-> ""]
Variant(form, a, fs) == [form |-> form, a |-> a, fs |-> fs]

StructT(form, a, fs) == [t |-> "struct", form |-> form, a |-> a, gen |-> "", fs |-> fs]
EnumT(vs) == [t |-> "enum", gen |-> "", vs |-> vs]
TransT(form, fs) == [t |-> "trans", form |-> form, gen |-> "", fs |-> fs]
ConvT(e, out, in) == [t |-> "conv", e |-> e, out |-> out, in |-> in]

Inner(d) == CASE d.c = "struct" -> [StructT(d.form, d.a, d.fs) EXCEPT !.gen = d.gen]
              [] d.c = "trans" -> [TransT(d.form, d.fs) EXCEPT !.gen = d.gen]
              [] d.c = "enum" -> [EnumT(d.vs) EXCEPT !.gen = d.gen]
Middle(d) == IF d.out = <<>> /\ d.in = <<>> THEN Inner(d) ELSE ConvT(Inner(d), d.out, d.in)
Whole(d) ==
  LET m == Middle(d) IN
  CASE d.outer = "" -> m
    [] d.outer = "vec" -> Vec(m)
    [] d.outer = "linked" -> Linked(m)
    [] d.outer = "deque" -> Deque(m)
    [] d.outer = "bmap" -> BMap(I8, m)
    [] d.outer = "hmap" -> HMap(I8, m)
    [] d.outer = "field" -> StructT("tuple", NoArgs, <<F(I8), F(m), F(StrT)>>)
    [] d.outer = "variant" -> EnumT(<<Variant("tuple", NoArgs, <<F(m)>>), Variant("unit", Num(BitsOf(1)), <<>>)>>)
    [] d.outer = "trans" -> TransT("tuple", <<F(m)>>)

\* ------------------------------------------------------------------ drafts
Init == draft \in Openings

Closed == draft.outer # "" \/ draft.out # <<>> \/ draft.in # <<>>

AddField(f) ==
  /\ draft.c \in {"struct", "trans"} /\ draft.form # "unit" /\ ~Closed
  /\ Len(draft.fs) < MaxFields
  /\ draft' = [draft EXCEPT !.fs = Append(@, f)]

AddVariant(w) ==
  /\ draft.c = "enum" /\ ~Closed
  /\ Len(draft.vs) < MaxVariants
  /\ \A i \in 1..Len(draft.vs) : IdOf(draft.vs[i].a) # IdOf(w.a)
  /\ draft' = [draft EXCEPT !.vs = Append(@, w)]

PutConv(c) ==
  /\ ~Closed
  /\ draft' = [draft EXCEPT !.out = c[1], !.in = c[2]]

PutInside(o) ==
  /\ draft.outer = ""
  /\ draft' = [draft EXCEPT !.outer = o]

Sers(fs) == { i \in 1..Len(fs) : fs[i].ser }
\* An argument of the generic type has to be used, in the way it is meant.
GenericOk(d) ==
  LET used == IF d.c = "enum" THEN Concat([i \in 1..Len(d.vs) |-> d.vs[i].fs]) ELSE d.fs
      plain(f) == f.sk = "" /\ f.out = <<>> /\ f.in = <<>>
  IN CASE d.gen \in {"type", "where"} -> \E i \in 1..Len(used) : plain(used[i]) /\ used[i].ty.t # "new"
       [] d.gen = "life" -> \E i \in 1..Len(used) : used[i].ty = OctT /\ used[i].sk # ""
       [] OTHER -> TRUE
Legal(d) ==
  /\ d.c = "trans" => Cardinality(Sers(d.fs)) = 1 /\ Cardinality(Live(d.fs)) = 1
  /\ d.c = "enum" => d.vs # <<>>
  /\ GenericOk(d)

Next ==
  \/ \E f \in Offer(FieldMenu(draft), vars) : AddField(f)
  \/ \E w \in Offer(VariantMenu(draft), vars) : AddVariant(w)
  \/ Legal(draft) /\ \E c \in Offer(ConvMenu(draft), vars) : PutConv(c)
  \/ Legal(draft) /\ \E o \in Offer(OuterMenu(draft), vars) : PutInside(o)
Spec == Init /\ [][Next]_vars

T == Whole(draft)

\* ------------------------------------------------------------------ values
SeqProduct(ss) == \* sequences with one member out of each
  LET RECURSIVE go(_)
      go(i) == IF i > Len(ss) THEN { <<>> } ELSE { <<a>> \o b : a \in ss[i], b \in go(i + 1) }
  IN go(1)

RECURSIVE Vals(_)
FieldVals(fs) == SeqProduct([i \in 1..Len(fs) |-> Vals(fs[i].ty)])
Vals(t) ==
  CASE t.t = "bool" -> BOOLEAN
    [] t.t = "int" -> { EncInt(t.s, Rep(0, t.w - 1) \o <<5>>), EncInt(t.s, Rep(255, t.w - 1) \o <<254>>) }
    [] t.t = "str" -> { <<97, 98>>, <<>> }
    [] t.t = "oct" -> { <<99, 0>>, <<>> }
    [] t.t = "list" -> { <<>> } \cup { <<x>> : x \in Vals(t.e) } \cup { SetToSeq(Vals(t.e)) }
    [] t.t = "set" -> { <<>> } \cup { Collapse(t.e, <<x>>) : x \in Vals(t.e) }
    [] t.t = "map" -> { <<>> } \cup { << <<x, y>> >> : x \in {CHOOSE x \in Vals(t.k) : TRUE}, y \in Vals(t.v) }
    [] t.t = "unk" -> {0, 1, 2, 3} \X Vals(t.e)
    [] t.t = "new" -> Vals(t.e)
    [] t.t \in {"struct", "trans"} -> FieldVals(t.fs)
    [] t.t = "enum" -> UNION { { <<i, x>> : x \in FieldVals(t.vs[i].fs) } : i \in 1..Len(t.vs) }
    [] t.t = "conv" -> Vals(t.e)

\* ------------------------------------------------------------------ offers
E1(id, c) == Enc(<<id>>, c)
OddInts == { E1(2, <<7>>), E1(2, <<0, 128>>), E1(2, <<1, 0>>), E1(2, <<1, 0, 0>>), E1(2, <<255, 127>>), E1(2, <<0, 5>>), E1(2, <<>>) }
OddRest == { E1(12, <<98>>), E1(12, <<255>>), E1(4, <<255>>), E1(4, <<98>>), E1(1, <<255>>), E1(1, <<1>>), E1(48, <<>>), E1(48, E1(2, <<7>>)), E1(0, <<>>), E1(44, <<98>>) }
Odd == OddInts \cup OddRest
Junk == { <<2>>, <<2, 1>>, <<0>>, <<48, 128>>, <<31, 5, 0>> }
FewOdd == { E1(2, <<7>>), E1(2, <<1, 0>>), E1(12, <<98>>), E1(4, <<255>>), E1(0, <<>>) }

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Put(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Altered(es) ==
  { Without(es, i) : i \in 1..Len(es) }
    \cup { Put(es, i, es[i]) : i \in 1..Len(es) }
    \cup { [j \in 1..Len(es) |-> IF j = i THEN es[i + 1] ELSE IF j = i + 1 THEN es[i] ELSE es[j]] : i \in 1..(Len(es) - 1) }
    \cup { [es EXCEPT ![i] = x] : i \in 1..Len(es), x \in Odd \cup Junk }
    \cup { Put(es, i, x) : i \in 1..(Len(es) + 1), x \in FewOdd \cup Junk }

Source(f) == IF f.in = <<>> THEN f.ty ELSE f.in[1]
LiveSeq(fs) == SelectSeq(fs, LAMBDA f : f.de)

RECURSIVE Offers(_)
\* What the fields may be read from: some of it right, some of it not.
FieldOffers(fs) ==
  LET ls == LiveSeq(fs)
      right == SeqProduct([i \in 1..Len(ls) |-> { Encode(Source(ls[i]), x) : x \in Vals(Source(ls[i])) }])
      base == CHOOSE s \in right : TRUE
      inside == { i \in 1..Len(ls) : Source(ls[i]).t \notin Plain }
  IN { Concat(s) : s \in right \cup Altered(base)
                           \cup UNION { { [base EXCEPT ![i] = x] : x \in Offers(Source(ls[i])) } : i \in inside } }

Both(id, cs) == { Enc(id, c) : c \in cs } \cup (IF PcOf(id) = 1 THEN { EncIndef(id, c) : c \in cs } ELSE {})

\* Identifiers that resemble an identifier.
Near(id) ==
  LET n == IdNum(id)
      c == ClassOf(id)
      p == PcOf(id)
  IN { EncId(k, q, n) : k \in 0..3, q \in {0, 1} }
       \cup { EncId(c, p, m) : m \in { Trim(Append(n, 0)), Append(n, 1), BitsOf(0), BitsOf(31), BitsOf(16), BitsOf(17), IF n = <<>> THEN n ELSE Take(n, Len(n) - 1) } }
       \cup (IF Len(id) > 1 THEN { Take(id, 1 + 1) : i \in {1} } ELSE {})

Ids(id) == { i \in Near(id) \cup StrangeIds : LET r == ParseDer(Enc(i, <<>>)) IN r.res = "ok" }

StructOffers(id, fs) ==
  LET base == Concat([i \in 1..Len(LiveSeq(fs)) |-> CHOOSE e \in { Encode(Source(LiveSeq(fs)[i]), x) : x \in Vals(Source(LiveSeq(fs)[i])) } : TRUE])
  IN Both(id, FieldOffers(fs)) \cup { Enc(i, base) : i \in Ids(id) }
Offers(t) ==
  CASE t.t \in Plain -> { Encode(t, x) : x \in Vals(t) } \cup Odd
    [] t.t \in {"list", "set", "map"} -> UNION { Variants(t, x) : x \in Vals(t) } \cup FewOdd
    [] t.t \in {"unk", "new"} -> Offers(t.e)
    [] t.t = "struct" -> StructOffers(IdOf(t.a), t.fs)
    [] t.t = "enum" -> UNION { StructOffers(IdOf(t.vs[i].a), t.vs[i].fs) : i \in 1..Len(t.vs) }
    [] t.t = "trans" -> UNION { Offers(Source(t.fs[i])) : i \in Live(t.fs) } \cup { Enc(i, <<>>) : i \in StrangeIds }
    [] t.t = "conv" -> IF t.in = <<>> THEN Offers(t.e) ELSE Offers(t.in[1])

Outcome(rule, el) == LET d == Decode(rule, T, el) IN IF d.ok THEN [v |-> d.v] ELSE [e |-> d.errs]
\* Instead of the outcome: where the fault is.
Located(rule, el) == [at |-> Where(rule, T, el)]
Row(el) == LET der == ParseDer(el) IN
  [in |-> el, b |-> Outcome("ber", el), der |-> der.res,
   d |-> IF IsOk(der) THEN Outcome("der", el) ELSE [e |-> {}]]

Ready == Legal(draft)
Encoded == { [v |-> x, out |-> Encode(T, x)] : x \in Vals(T) }
Offered == { el \in { e.out : e \in Encoded } \cup Offers(T) : ParseBer(el) = Ok(Len(el)) }

\* Where both directions use the same fields, values come back.
RECURSIVE Symmetric(_)
Symmetric(t) ==
  CASE t.t \in Plain -> TRUE
    [] t.t \in {"list", "set", "new"} -> Symmetric(t.e)
    [] t.t = "unk" -> FALSE
    [] t.t = "map" -> Symmetric(t.k) /\ Symmetric(t.v)
    [] t.t \in {"struct", "trans"} -> \A i \in 1..Len(t.fs) : t.fs[i].sk = "" /\ t.fs[i].out = <<>> /\ t.fs[i].in = <<>> /\ Symmetric(t.fs[i].ty)
    [] t.t = "enum" -> \A j \in 1..Len(t.vs) : \A i \in 1..Len(t.vs[j].fs) :
                         LET f == t.vs[j].fs[i] IN f.sk = "" /\ f.out = <<>> /\ f.in = <<>> /\ Symmetric(f.ty)
    [] t.t = "conv" -> FALSE
ComesBack == Ready /\ Symmetric(T) =>
  \A e \in Encoded : Decode("der", T, e.out) = Good(e.v) /\ Decode("ber", T, e.out) = Good(e.v)

OneElement == Ready => \A e \in Encoded : ParseDer(e.out) = Ok(Len(e.out))

\* A transparent type is as its live field.
AsItsField == Ready /\ draft.outer = "" /\ draft.c = "trans" /\ draft.in = <<>> =>
  LET l == CHOOSE i \in Live(draft.fs) : TRUE
      f == draft.fs[l]
  IN f.in = <<>> => \A el \in Offered : \A rule \in {"ber", "der"} :
       (rule = "der" /\ ~IsOk(ParseDer(el))) \/
       LET a == Decode(rule, T, el)
           b == Decode(rule, f.ty, el)
       IN a.ok = b.ok /\ a.errs = b.errs /\ (a.ok => a.v[l] = b.v)

\* There is somewhere to point to exactly when decoding fails.
Blamed == Ready => \A el \in Offered : \A rule \in {"ber", "der"} :
  (rule = "der" /\ ~IsOk(ParseDer(el))) \/ (Decode(rule, T, el).ok <=> Where(rule, T, el) = {})

Emit == Ready =>
  PrintT("C " \o ToJson([k |-> "prog", d |-> T, un |-> Unordered(T), vals |-> Encoded, ins |-> { Row(el) : el \in Offered }]))
=============================================================================
