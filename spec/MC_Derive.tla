------------------------------ MODULE MC_Derive ------------------------------
EXTENDS Derive, Walk
None(d) == {}
NoIds == {}
Bits(n) == BitsOf(n)

\* ------------------------------------------------------------------- tags
IdWords == {"", "EOC", "Boolean", "Integer", "BitString", "OctetString", "Null", "Real", "UTF8String", "Sequence", "Set"}
ClassWords == {"", "UNIVERSAL", "APPLICATION", "CONTEXT_SPECIFIC", "PRIVATE"}
PcWords == {"", "PRIMITIVE", "CONSTRUCTED"}
One(n) == Rep(1, n)
Zeros(n) == <<1>> \o Rep(0, n)
Nums == << Bits(0), Bits(1), Bits(5), Bits(30), Bits(31), Bits(32), Bits(63), Bits(127), Bits(128), Bits(129), Bits(255), Bits(256), Bits(16383), Bits(16384), One(21), Zeros(21),
  One(32), Zeros(32), One(63), Zeros(63), One(64), Zeros(64), One(126), Zeros(126), One(127), Zeros(127), One(128) >>
Lits == <<"dec", "0x", "0X", "0o", "0O", "0b", "0B">>
Lit(i) == Lits[(i % Len(Lits)) + 1]
Words == { Attr(i, c, p, <<>>, "dec", o) : i \in IdWords, c \in ClassWords, p \in PcWords, o \in {FALSE} }
Mix == { <<"", "", "">>, <<"Boolean", "PRIVATE", "">>, <<"Set", "", "PRIMITIVE">>, <<"", "APPLICATION", "PRIMITIVE">>, <<"UTF8String", "CONTEXT_SPECIFIC", "CONSTRUCTED">>, <<"EOC", "PRIVATE", "CONSTRUCTED">> }
Numbered == { Attr(m[1], m[2], m[3], <<Nums[i]>>, Lit(i + Len(m[1])), (i % 2) = 0) : m \in Mix, i \in 1..Len(Nums) }
  \cup { Attr("", "APPLICATION", "", <<n>>, l, FALSE) : n \in {Bits(31), Bits(200), Bits(7)}, l \in {Lits[j] : j \in 1..Len(Lits)} }
TagsT == { Attr(i, c, p, <<Nums[n]>>, Lit(n), FALSE) : i \in IdWords, c \in ClassWords, p \in PcWords, n \in 1..Len(Nums) }
TagField(d) == IF d.form = "named" THEN {F(StrT)} ELSE {F(I8)}
TagOpenings == { Open("struct", "tuple", a, "") : a \in Words \cup Numbered }
  \cup { Open("struct", f, a, "") : f \in {"named", "unit"}, a \in { a \in Numbered : a.num \in {<<Bits(31)>>, <<Bits(5)>>, <<Bits(128)>>} } }
TagOpeningsT == { Open("struct", "tuple", a, "") : a \in TagsT }
TagIds == { <<48>>, <<49>>, <<2>>, <<176>> }

\* ---------------------------------------------------------------- choices
Pool == { NoArgs, Attr("Set", "", "", <<>>, "dec", FALSE), Num(Bits(0)), Num(Bits(1)), Attr("", "CONTEXT_SPECIFIC", "PRIMITIVE", <<Bits(1)>>, "dec", FALSE),
  Num(Bits(31)), Num(Bits(128)), Attr("", "APPLICATION", "", <<Bits(31)>>, "0x", TRUE), Attr("Integer", "", "", <<>>, "dec", FALSE), Num(Bits(16)) }
PoolS == { NoArgs, Num(Bits(1)), Num(Bits(31)), Num(Bits(129)), Attr("Boolean", "", "", <<>>, "dec", FALSE) }
ShapesAt(i, a) == CASE i = 1 -> Variant("tuple", a, <<F(I8)>>)
                    [] i = 2 -> Variant("unit", a, <<>>)
                    [] i = 3 -> Variant("named", a, <<F(StrT), F(I8)>>)
                    [] OTHER -> Variant("tuple", a, <<F(I8), F(StrT)>>)
Choice(d) == { ShapesAt(Len(d.vs) + 1, a) : a \in Pool }
ChoiceS(d) == { ShapesAt(Len(d.vs) + 1, a) : a \in PoolS }
ChoiceB(d) == { ShapesAt(4 - Len(d.vs), a) : a \in PoolS }
ChoiceOpenings == { Open("enum", "", NoArgs, "") }
ChoiceIds == { IdOf(a) : a \in Pool }

\* ----------------------------------------------------------------- fields
Menu(t) == { Field(t, "", FALSE), Field(t, "skip", FALSE), Field(t, "skip", TRUE), Field(t, "ser", FALSE), Field(t, "de", FALSE), Field(t, "de", TRUE), Field(t, "both", FALSE), Field(t, "both", TRUE) }
MenuS(t) == { Field(t, "", FALSE), Field(t, "skip", TRUE), Field(t, "ser", FALSE), Field(t, "de", FALSE) }
TypeAt(i) == <<I8, StrT, I8, BoolT, I16>>[i]
FieldsQ(d) == Menu(TypeAt(Len(d.fs) + 1))
FieldsS(d) == MenuS(I8)
FieldOpenings == { Open("struct", f, NoArgs, "") : f \in {"named", "tuple", "unit"} }
FieldOpeningsN == { Open("struct", f, NoArgs, "") : f \in {"named", "tuple"} }
SeqUpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }
VariantFields(n) == { fs \in SeqUpTo(Menu(I8) \cup Menu(StrT), n) : \A i \in 1..Len(fs) : fs[i].ty = TypeAt(i) }
FieldVariants(d) == { Variant(f, NoArgs, fs) : f \in {"named", "tuple"}, fs \in VariantFields(2) }
FieldVariantsT(d) == { Variant(f, NoArgs, fs) : f \in {"named", "tuple"}, fs \in VariantFields(3) }

\* every type of a field, and generic ones
Kinds == { BoolT, I8, U8, I16, U16, I32, U32, I64, U64, I128, U128, ISize, USize, StrT, OctT, Vec(I8), Deque(StrT), Linked(OctT), BSet(I16), HSet(U8), BMap(I8, StrT), HMap(StrT, BoolT), Unk(I8), Vec(Unk(BoolT)) }
S1 == StructT("tuple", NoArgs, <<F(I8)>>)
S2 == StructT("named", Num(Bits(31)), <<F(StrT), Field(I8, "skip", TRUE)>>)
S0 == StructT("unit", Attr("Null", "", "", <<>>, "dec", FALSE), <<>>)
E2 == EnumT(<<Variant("tuple", NoArgs, <<F(I8)>>), Variant("unit", Num(Bits(1)), <<>>), Variant("named", Num(Bits(200)), <<F(BoolT), F(I8)>>)>>)
T1 == TransT("tuple", <<F(I16)>>)
Compound == { S1, S2, S0, E2, T1, Vec(S1), Vec(E2), BMap(I8, S2), HMap(I8, E2), Linked(T1), StructT("tuple", NoArgs, <<F(S1), F(E2)>>), Vec(S0), Vec(Vec(S1)) }
KindField(d) == IF Len(d.fs) = 0 THEN { F(t) : t \in Kinds \cup Compound } ELSE { F(I8) }
KindOpenings == { Open("struct", "tuple", NoArgs, ""), Open("struct", "named", Num(Bits(3)), "") }
GenFields(d) == { F(I8), F(StrT), Field(OctT, "skip", TRUE), F(Vec(I8)) }
GenOpenings == { Open("struct", f, NoArgs, g) : f \in {"tuple", "named"}, g \in {"type", "where", "const", "life"} }
GenVariants(d) == { Variant(f, Num(Bits(Len(d.vs) + 30)), fs) : f \in {"tuple", "named"}, fs \in { <<F(I8)>>, <<F(StrT), F(I8)>>, <<>> } }
GenEnumOpenings == { Open("enum", "", NoArgs, g) : g \in {"type", "where", "const"} }
GenTransOpenings == { Open("trans", f, NoArgs, g) : f \in {"tuple", "named"}, g \in {"type", "where", "const"} }
GenAll == GenOpenings \cup GenEnumOpenings \cup GenTransOpenings

\* ------------------------------------------------------------ conversions
N8 == New(I8)
NS == New(StrT)
Outs(t) == CASE t = N8 -> { <<I32, "not", "into">>, <<Vec(I8), "wrap", "into">>, <<I32, "not", "to">>, <<S1, "wrap", "into">> }
             [] t = NS -> { <<OctT, "rev", "into">>, <<OctT, "same", "to">> }
             [] t = BoolT -> { <<I32, "num", "into">> }
             [] t = StrT -> { <<OctT, "same", "into">>, <<StrT, "rev", "to">> }
             [] t = Vec(U8) -> { <<OctT, "octets", "into">> }
             [] OTHER -> {}
Ins(t) == CASE t = N8 -> { <<I8, "not", "from">>, <<I32, "notfit8", "try_from">>, <<Vec(I8), "unwrap", "try_from">>, <<S1, "open", "from">>, <<I8, "not", "try_from">> }
            [] t = NS -> { <<StrT, "rev", "from">>, <<OctT, "utf8", "try_from">> }
            [] t = I16 -> { <<I64, "fit16", "try_from">>, <<I8, "same", "from">> }
            [] t = StrT -> { <<OctT, "utf8", "try_from">> }
            [] t = Vec(U8) -> { <<OctT, "numbers", "from">> }
            [] OTHER -> {}
Convs(t) == { FieldConv(t, o, i) : o \in Outs(t) \cup {<<>>}, i \in Ins(t) \cup {<<>>} }
Converted == UNION { Convs(t) : t \in {N8, NS, BoolT, I16, StrT, Vec(U8)} }
ConvFew == { FieldConv(N8, <<I32, "not", "into">>, <<I32, "notfit8", "try_from">>), FieldConv(N8, <<I32, "not", "to">>, <<>>), FieldConv(NS, <<>>, <<OctT, "utf8", "try_from">>), FieldConv(N8, <<>>, <<I8, "not", "from">>) }
Around == { F(I8), Field(I8, "skip", TRUE) }
\* one converted field among others
ConvField(d) == IF \E i \in 1..Len(d.fs) : d.fs[i].out # <<>> \/ d.fs[i].in # <<>> THEN { F(StrT) }
                ELSE IF d.fs = <<>> THEN Converted \cup Around ELSE ConvFew
ConvFieldT(d) == Converted \cup Around
ConvFieldOpenings == { Open("struct", "tuple", NoArgs, ""), Open("struct", "named", Num(Bits(31)), "") }
ConvVariants(d) == { Variant(f, Num(Bits(Len(d.vs))), <<x>>) : f \in {"tuple", "named"}, x \in Converted }
                     \cup { Variant("tuple", Num(Bits(Len(d.vs))), <<F(I8), x, Field(StrT, "de", FALSE)>>) : x \in ConvFew }
ConvTrans(d) == IF d.fs = <<>> THEN Converted \cup {Field(I8, "skip", TRUE)} ELSE IF Len(d.fs) = 1 /\ d.fs[1].sk = "skip" THEN ConvFew ELSE { Field(StrT, "both", FALSE) }

\* conversions of whole types
E2B == EnumT(<<Variant("tuple", Num(Bits(5)), <<F(I8)>>), Variant("named", Num(Bits(6)), <<F(I8)>>)>>)
ConvMenuS(d) ==
  LET one == Len(d.fs) = 1 /\ d.fs[1].ty = I8
      two == Len(d.fs) = 2 /\ d.fs[1].ty = I8 /\ d.fs[2].ty = I8
      outs == IF one THEN { <<I32, "open", "into">>, <<I8, "open", "to">>, <<Vec(I8), "same", "into">>, <<S1, "same", "into">> }
              ELSE IF two THEN { <<Vec(I8), "rev", "into">>, <<Vec(I8), "same", "to">>, <<StructT("tuple", Num(Bits(31)), <<F(I8), F(I8)>>), "rev", "into">> }
              ELSE IF d.c = "enum" /\ Len(d.vs) = 2 THEN { <<Vec(I8), "flat", "into">>, <<Vec(I8), "flat", "to">>, <<E2B, "same", "to">> }
              ELSE {}
      ins == IF one THEN { <<I8, "wrap", "from">>, <<Vec(I8), "one", "try_from">>, <<S1, "same", "from">> }
             ELSE IF two THEN { <<Vec(I8), "two", "try_from">>, <<StructT("named", NoArgs, <<F(I8), F(I8)>>), "rev", "from">>, <<StructT("named", NoArgs, <<F(I8), F(I8)>>), "rev", "try_from">> }
             ELSE IF d.c = "enum" /\ Len(d.vs) = 2 THEN { <<Vec(I8), "unflat", "try_from">>, <<E2B, "same", "from">> }
             ELSE {}
  IN { <<o, i>> : o \in outs \cup {<<>>}, i \in ins \cup {<<>>} } \ { <<<<>>, <<>>>> }
WholeFields(d) == { F(I8) }
WholeVariants(d) == { Variant("tuple", Num(Bits(Len(d.vs) + 1)), <<F(I8)>>) }
WholeOpenings == { Open("struct", "tuple", NoArgs, ""), Open("struct", "named", NoArgs, ""), Open("enum", "", NoArgs, "") }
Outers(d) == IF d.out # <<>> \/ d.in # <<>> THEN {"vec", "field", "bmap", "variant", "trans"} ELSE {}
AllOuters(d) == {"vec", "linked", "deque", "bmap", "hmap", "field", "variant", "trans"}

\* ------------------------------------------------------------ transparency
TransField(d) ==
  IF d.fs = <<>> THEN { F(t) : t \in Kinds \cup Compound } \cup { Field(I8, "skip", FALSE), Field(StrT, "both", TRUE), Field(I8, "de", TRUE), Field(I8, "ser", FALSE) }
  ELSE IF Len(d.fs) = 1 /\ d.fs[1].sk # "" THEN { F(I8), F(E2), F(Vec(StrT)), F(Unk(StrT)), Field(StrT, "ser", FALSE), Field(I8, "ser", FALSE), Field(I8, "de", TRUE), Field(StrT, "skip", TRUE) }
  ELSE IF Len(d.fs) = 1 /\ d.fs[1].ty \in {I8, StrT, E2} THEN { Field(I8, "skip", TRUE), Field(StrT, "both", FALSE) }
  ELSE IF Len(d.fs) = 2 /\ d.fs[1].sk # "" /\ d.fs[2].sk # "" THEN { F(I8), F(StrT), Field(I8, "skip", FALSE) }
  ELSE IF Len(d.fs) = 2 /\ d.fs[2].ty = I8 THEN { Field(StrT, "skip", TRUE) }
  ELSE {}
TransOpenings == { Open("trans", f, NoArgs, "") : f \in {"tuple", "named"} }
TransIds == { <<48>>, <<49>>, <<2>>, <<160>>, <<191, 31>>, <<5>> }

\* ------------------------------------------------------------ random walks
\* One member after another is varied, the rest staying as it is.
OneAtATime(ss) ==
  IF \E i \in 1..Len(ss) : ss[i] = {} THEN {}
  ELSE LET base == [i \in 1..Len(ss) |-> CHOOSE x \in ss[i] : TRUE]
           last == [i \in 1..Len(ss) |-> CHOOSE x \in ss[i] : Cardinality(ss[i]) = 1 \/ x # base[i]]
       IN {base, last} \cup UNION { { [base EXCEPT ![i] = x] : x \in ss[i] } : i \in 1..Len(ss) }
FewForms(ss) == { Concat(s) : s \in OneAtATime(ss) }
WalkTypes == Kinds \cup Compound
WalkFields == { F(t) : t \in WalkTypes } \cup UNION { Menu(t) : t \in {I8, StrT, BoolT, Vec(I8), U16, I128} } \cup { Field(OctT, sk, TRUE) : sk \in {"skip", "de", "both"} } \cup Converted
WalkField(d) == WalkFields
WalkAttrs == { a \in Words \cup Numbered : a.id # "EOC" }
Drawn(n) == [i \in 1..n |-> RandomElement(WalkFields)]
WalkVariant(d) == LET n == RandomElement({0, 0, 1, 1, 2, 3}) IN
  { Variant(RandomElement(IF n = 0 THEN {"unit", "tuple", "named"} ELSE {"tuple", "named"}), RandomElement(WalkAttrs), Drawn(n)) }
WalkOpenings == { Open("struct", f, a, g) : f \in {"named", "tuple"}, a \in { RandomElement(WalkAttrs) : i \in 1..20 }, g \in {"", "type", "where", "const", "life"} }
  \cup { Open("enum", n, NoArgs, g) : n \in {"", "again", "twice"}, g \in {"", "type", "where", "const"} }
WalkOuter(d) == IF Len(d.fs) + 2 * Len(d.vs) > 2 THEN AllOuters(d) ELSE {}

\* ------------------------------------------------------------------ places
BlameMenu == { F(StrT), Field(I8, "skip", TRUE), Field(I8, "ser", FALSE), FieldConv(N8, <<>>, <<I32, "notfit8", "try_from">>), FieldConv(N8, <<>>, <<Vec(I8), "unwrap", "try_from">>), F(E2), F(BMap(I8, S2)), F(Vec(S1)), F(T1) }
BlameField(d) == IF d.fs = <<>> THEN BlameMenu ELSE { F(I8), F(Vec(I8)) }
BlameFieldT(d) == IF Len(d.fs) < 2 THEN BlameMenu ELSE { F(I8), F(Vec(I8)) }
BlameTrans(d) == IF d.fs = <<>> THEN { Field(I8, "skip", TRUE) } \cup BlameMenu ELSE IF Len(d.fs) = 1 /\ d.fs[1].sk = "skip" THEN BlameMenu ELSE {}
BlameOpenings == { Open("struct", f, NoArgs, "") : f \in {"named", "tuple"} }
BlameTransOpenings == { Open("trans", f, NoArgs, "") : f \in {"named", "tuple"} }
BlameVariants(d) == { Variant(f, Num(Bits(Len(d.vs))), <<F(I8), x, F(Vec(StrT))>>) : f \in {"tuple", "named"}, x \in BlameMenu }
BlameOuters(d) == IF Len(d.fs) = 2 \/ (d.c = "trans" /\ Len(d.fs) = 1) \/ Len(d.vs) = 1 THEN {"vec", "hmap", "field", "variant", "trans"} ELSE {}
FewOuters(d) == IF Len(d.fs) = 2 /\ d.fs[2].ty = I8 THEN {"vec", "field", "variant"} ELSE {}
=============================================================================
