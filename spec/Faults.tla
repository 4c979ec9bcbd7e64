-------------------------------- MODULE Faults --------------------------------
(***************************************************************************)
(* One fault, somewhere in a nest of collections.  A behaviour starts at a *)
(* type, goes down through its collections, deciding at each how many      *)
(* sound members come before and after, and puts one fault where it has    *)
(* arrived.  The error has to lead there.                                  *)
(***************************************************************************)
EXTENDS Types, Json

CONSTANTS
  TypeList,   \* the types to start from
  Before,     \* how many members may precede the one that is entered
  After,      \* how many may follow it
  MaxDepth,
  WithIndef   \* whether the indefinite form is offered

\* down: the frames passed, each [t, part, b, a, indef]; cur: the type arrived at;
\* bad: <<>> or << [what, rules, el] >>, the fault.
VARIABLES top, down, cur, bad
vars == <<top, down, cur, bad>>

Init == top \in TypeList /\ down = <<>> /\ cur = top /\ bad = <<>>

PartsOf(T) == IF T.t = "map" THEN {"key", "value"} ELSE IF T.t \in {"list", "set"} THEN {"member"} ELSE {}
TypeOf(T, part) == IF part = "key" THEN T.k ELSE IF part = "value" THEN T.v ELSE T.e

Enter(part, b, a, i) ==
  /\ bad = <<>> /\ Len(down) < MaxDepth
  /\ part \in PartsOf(cur)
  /\ down' = Append(down, [t |-> cur, part |-> part, b |-> b, a |-> a, indef |-> i])
  /\ cur' = TypeOf(cur, part)
  /\ UNCHANGED <<top, bad>>

\* ------------------------------------------------------------------ members
RECURSIVE Sample(_)
Sample(T) == CASE T.t = "bool" -> TRUE
             [] T.t = "int" -> <<7>>
             [] T.t = "str" -> <<97>>
             [] T.t = "oct" -> <<0, 0>>
             [] T.t \in {"list", "set"} -> <<Sample(T.e)>>
             [] T.t = "map" -> << <<Sample(T.k), Sample(T.v)>> >>
             [] T.t = "new" -> Sample(T.e)
             [] T.t = "unk" -> <<0, Sample(T.e)>>
SoundMember(T) == IF T.t = "map" THEN EncPair(T, <<Sample(T.k), Sample(T.v)>>) ELSE Encode(T.e, Sample(T.e))

\* ------------------------------------------------------------------- faults
Null == <<5, 0>>
Fault(what, el) == [what |-> what, el |-> el]
\* In place of an element of the type T.
Wrong(T) ==
  { Fault("id", Null) }
    \cup (CASE T.t = "int" -> { Fault("empty", <<2, 0>>), Fault("redundant", <<2, 2, 0, 1>>), Fault("large", Enc(<<2>>, <<1>> \o Rep(0, T.w))) }
            [] T.t = "bool" -> { Fault("long", <<1, 2, 0, 0>>), Fault("byte", <<1, 1, 1>>) }
            [] T.t = "str" -> { Fault("utf8", <<12, 1, 255>>), Fault("form", <<44, 1, 97>>) }
            [] OTHER -> {})
    \cup { Fault("cut", <<2, 5, 1>>), Fault("none", <<31, 30, 0>>) }
\* In place of an entry of a map.
WrongPair(T) ==
  LET k == Encode(T.k, Sample(T.k))
      v == Encode(T.v, Sample(T.v))
  IN { Fault("id", Null), Fault("one", Enc(IdSeq, k)), Fault("three", Enc(IdSeq, k \o v \o v)), Fault("no", Enc(IdSeq, <<>>)),
       Fault("kind", Enc(IdSet, k \o v)), Fault("junk", Enc(IdSeq, k \o <<2>>)), Fault("indef", EncIndef(IdSeq, k \o v)), Fault("more", Enc(IdSeq, k \o v \o <<0>>)) }

Break(f) ==
  /\ bad = <<>> /\ down # <<>>
  /\ f \in Wrong(cur)
  /\ bad' = <<f>>
  /\ UNCHANGED <<top, down, cur>>

\* An entry that is none: the last step down leads to it and no further.
BreakPair(f) ==
  /\ bad = <<>> /\ down # <<>>
  /\ down[Len(down)].part = "key"
  /\ f \in WrongPair(down[Len(down)].t)
  /\ bad' = <<f>>
  /\ down' = [down EXCEPT ![Len(down)].part = "entry"]
  /\ UNCHANGED <<top, cur>>

Next ==
  \/ \E part \in {"key", "value", "member"}, b \in Offer(Before, vars), a \in Offer(After, vars), i \in (IF WithIndef THEN BOOLEAN ELSE {FALSE}) : Enter(part, b, a, i)
  \/ \E f \in Wrong(cur) : Break(f)
  \/ down # <<>> /\ down[Len(down)].part = "key" /\ \E f \in WrongPair(down[Len(down)].t) : BreakPair(f)
Spec == Init /\ [][Next]_vars

\* ----------------------------------------------------------------- elements
RECURSIVE Build(_, _)
Build(n, el) ==
  IF n = 0 THEN el
  ELSE LET f == down[n]
           T == f.t
           this == CASE f.part \in {"member", "entry"} -> el
                     [] f.part = "key" -> Enc(IdSeq, el \o Encode(T.v, Sample(T.v)))
                     [] f.part = "value" -> Enc(IdSeq, Encode(T.k, Sample(T.k)) \o el)
           c == Concat(Rep(SoundMember(T), f.b)) \o this \o Concat(Rep(SoundMember(T), f.a))
           id == IF T.c \in {"hset", "hmap"} THEN IdSet ELSE IdSeq
       IN Build(n - 1, IF f.indef THEN EncIndef(id, c) ELSE Enc(id, c))

el == Build(Len(down), bad[1].el)
way == [i \in 1..Len(down) |-> ToString(down[i].b)]

\* Octets that end nowhere are an element only by what is around them.
Ready == bad # <<>> /\ ParseBer(el) = Ok(Len(el))
Rules == { r \in {"ber", "der"} : (r = "ber" \/ IsOk(ParseDer(el))) /\ ~Decode(r, top, el).ok }

\* No way leads anywhere else than to the fault, or to where it shows, and
\* one does lead there whenever anything is wrong.
Prefix(p, q) == Len(p) <= Len(q) /\ Take(q, Len(p)) = p
LeadsThere == Ready => \A r \in {"ber", "der"} : (r = "ber" \/ IsOk(ParseDer(el))) =>
  LET w == Where(r, top, el) IN
  /\ (w = {}) <=> Decode(r, top, el).ok
  /\ bad[1].what \notin {"cut", "none"} => \A p \in w : Prefix(p, way)

Emit == Ready => \A r \in Rules :
  PrintT("C " \o ToJson([k |-> "flt", ty |-> Name(top), r |-> r, in |-> el, at |-> Where(r, top, el)]))
=============================================================================
