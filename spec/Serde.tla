-------------------------------- MODULE Serde --------------------------------
(***************************************************************************)
(* Values of every supported type, with their encodings.  A behaviour      *)
(* chooses a type and then a value.                                        *)
(***************************************************************************)
EXTENDS Types, Json

CONSTANTS
  TypeList,     \* sequence of types
  MaxLen,       \* how many members the collections have
  Texts,        \* octets of texts: all of them and, inside collections, some
  InnerTexts,
  Blobs,
  InnerBlobs,
  Longs,        \* how many equal members long lists have
  Hides,        \* which sizes are hidden: 0 none, 1 identifier, 2 contents, 3 both
  WithForms     \* whether to emit the indefinite forms

VARIABLES ti, raw, done
vars == <<ti, raw, done>>

T == TypeList[ti]

Patterns(w) ==
  { Rep(a, w - 1) \o <<b>> : a \in {0, 255}, b \in {0, 1, 127, 128, 255} }
    \cup { <<c>> \o Rep(d, w - 1) : c \in {0, 1, 127, 128, 255}, d \in {0, 127, 128, 255} }

FewPatterns(w) == { Rep(0, w - 1) \o <<1>>, Rep(255, w) }

SeqsOf(S, n) == UNION { [1..k -> S] : k \in 0..n }
IsCollection(t) == t.t \in {"list", "set", "map"}
Shape(t, s) == CASE t.t = "set" -> Collapse(t.e, s)
                 [] t.t = "map" -> CollapseMap(t.k, s)
                 [] OTHER -> s

\* The values used, more of them at the top than inside.
RECURSIVE Vals(_, _)
Members(t, rich) ==
  CASE t.t = "map" -> Vals(t.k, FALSE) \X Vals(t.v, FALSE)
    [] t.t = "set" -> Vals(t.e, rich /\ t.e.t = "int")
    [] OTHER -> Vals(t.e, FALSE)
Vals(t, rich) ==
  CASE t.t = "bool" -> BOOLEAN
    [] t.t = "int" -> IF rich THEN { EncInt(t.s, p) : p \in Patterns(t.w) }
                      ELSE { EncInt(t.s, p) : p \in FewPatterns(t.w) }
    [] t.t = "str" -> IF rich THEN Texts ELSE InnerTexts
    [] t.t = "oct" -> IF rich THEN Blobs ELSE InnerBlobs
    [] t.t = "unk" -> Hides \X Vals(t.e, FALSE)
    [] IsCollection(t) -> { Shape(t, s) : s \in SeqsOf(Members(t, FALSE), MaxLen) }

\* A collection is built member by member, anything else is chosen.
Init == ti \in 1..Len(TypeList) /\ raw = <<>> /\ done = IsCollection(T)

Choose(x) == ~done /\ raw' = x /\ done' = TRUE /\ UNCHANGED ti
Insert(x) == IsCollection(T) /\ Len(raw) < MaxLen /\ raw' = Append(raw, x) /\ UNCHANGED <<ti, done>>
Multiply(n) == T.t = "list" /\ Len(raw) = 1 /\ n > MaxLen /\ raw' = Rep(raw[1], n) /\ UNCHANGED <<ti, done>>

Next ==
  \/ ~IsCollection(T) /\ \E x \in Offer(Vals(T, TRUE), vars) : Choose(x)
  \/ IsCollection(T) /\ \E x \in Offer(Members(T, TRUE), vars) : Insert(x)
  \/ \E n \in Offer(Longs, vars) : Multiply(n)
Spec == Init /\ [][Next]_vars

v == Shape(T, raw)

\* A value without what it hides.
RECURSIVE Bare(_, _)
Bare(t, x) ==
  CASE t.t \in Plain -> x
    [] t.t \in {"list", "set"} -> [i \in 1..Len(x) |-> Bare(t.e, x[i])]
    [] t.t = "map" -> [i \in 1..Len(x) |-> <<Bare(t.k, x[i][1]), Bare(t.v, x[i][2])>>]
    [] t.t = "unk" -> <<0, Bare(t.e, x[2])>>

RoundTrip == done =>
  LET e == Encode(T, v)
      b == Good(Bare(T, v))
  IN /\ ParseDer(e) = Ok(Len(e)) /\ ParseBer(e) = Ok(Len(e))
     /\ Decode("der", T, e) = b
     /\ Decode("ber", T, e) = b

FormsAgree == done /\ WithForms =>
  \A f \in Variants(T, v) : ParseBer(f) = Ok(Len(f)) /\ Decode("ber", T, f) = Good(Bare(T, v))

RECURSIVE AnyOrder(_)
AnyOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AnyOrder(S \ {x})

Emit == done =>
  PrintT("C " \o ToJson([k |-> "ser", ty |-> Name(T), un |-> Unordered(T), v |-> v, out |-> Encode(T, v),
    forms |-> IF WithForms THEN AnyOrder(Variants(T, v)) ELSE <<>>]))
=============================================================================
