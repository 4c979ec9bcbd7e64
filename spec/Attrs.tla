-------------------------------- MODULE Attrs --------------------------------
(***************************************************************************)
(* Writing one bsn1_serde attribute, argument by argument, at some place   *)
(* of a program that derives one of the two traits.  Every draft is either *)
(* a legal program, which has to compile, or not, and then the derive      *)
(* macro has to refuse it.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Macros,      \* "ser" and "de"
  Places,      \* where the attribute stands
  Menu(_),     \* the arguments that may come next in a draft: [n |-> name, v |-> value, ok |-> whether the value suits]
  MaxArgs,
  MaxSplits,   \* how often a second attribute is begun
  MaxFields    \* fields of a transparent structure

VARIABLES macro, place, args, splits, fields
vars == <<macro, place, args, splits, fields>>

Kept == {"", "skip", "skip_serializing", "skip_deserializing"}

Group(n) == CASE n \in {"id", "tag_class", "tag_pc", "tag_num"} -> "identifier"
              [] n \in {"skip", "skip_serializing", "skip_deserializing", "default"} -> "skip"
              [] n \in {"into", "to", "from", "try_from"} -> "conversion"
              [] n = "transparent" -> "transparent"
              [] OTHER -> "unknown"

\* What may be said about a thing.  union stands for a type that is neither structure nor choice.
Allowed(p) == CASE p \in {"struct", "tuple", "unit"} -> {"identifier", "conversion", "transparent"}
                [] p = "enum" -> {"conversion"}
                [] p = "variant" -> {"identifier"}
                [] p \in {"field", "element", "vfield", "velement"} -> {"skip", "conversion"}
                [] p = "union" -> {}

Names(s) == { s[i].n : i \in 1..Len(s) }
Fits(p, s) == \A i \in 1..Len(s) : Group(s[i].n) \in Allowed(p)
Suits(s) == \A i \in 1..Len(s) : s[i].ok
NotTwice(s) == Cardinality(Names(s)) = Len(s)
OneGroup(s) == Cardinality({ Group(n) : n \in Names(s) }) <= 1
OneWay(s) == ~({"into", "to"} \subseteq Names(s)) /\ ~({"from", "try_from"} \subseteq Names(s))
\* A transparent thing needs a field to be like, and only one.
HasField(p, s) == "transparent" \in Names(s) => p # "unit"
LiveIn(m, how) == how \notin {"skip", IF m = "ser" THEN "skip_serializing" ELSE "skip_deserializing"}
OneLive(m, fs) == Cardinality({ i \in 1..Len(fs) : LiveIn(m, fs[i]) }) = 1

LegalHere(m, p, s, k, fs) ==
  /\ p # "union" /\ k = 0
  /\ p = "transparent" => OneLive(m, fs)
  /\ p # "transparent" => /\ Fits(p, s) /\ Suits(s) /\ NotTwice(s) /\ OneGroup(s) /\ OneWay(s) /\ HasField(p, s)
Legal == LegalHere(macro, place, args, splits, fields)

Init == macro \in Macros /\ place \in Places /\ args = <<>> /\ splits = 0 /\ fields = <<>>

AddArg(a) == /\ Len(args) < MaxArgs /\ splits = 0 /\ place \notin {"union", "transparent"}
             /\ args' = Append(args, a) /\ UNCHANGED <<macro, place, splits, fields>>
\* The arguments are spread over two attributes; here the last one starts the second.
Split == /\ splits < MaxSplits /\ Len(args) > 1
         /\ splits' = splits + 1 /\ UNCHANGED <<macro, place, args, fields>>
AddField(how) == /\ place = "transparent" /\ Len(fields) < MaxFields
                 /\ fields' = Append(fields, how) /\ UNCHANGED <<macro, place, args, splits>>

Next == \/ \E a \in Menu(args) : AddArg(a)
        \/ Split
        \/ \E how \in Kept : AddField(how)
Spec == Init /\ [][Next]_vars

\* Refusing is stable: no further argument makes an illegal draft legal.
Stable == ~Legal /\ place # "transparent" => \A a \in Menu(args) : ~LegalHere(macro, place, Append(args, a), splits, fields)
\* The order in which arguments or fields are written makes no difference.
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == Legal = LegalHere(macro, place, Rev(args), splits, Rev(fields))
\* Saying nothing is legal, for what can be derived at all.
Silence == args = <<>> /\ place \notin {"union", "transparent"} => Legal
\* A field skipped altogether matters to neither direction.
SkippedIsNothing == place = "transparent" => Legal = LegalHere(macro, place, args, splits, Append(fields, "skip"))

Emit == PrintT("C " \o ToJson([k |-> "attr", m |-> macro, p |-> place, a |-> [i \in 1..Len(args) |-> <<args[i].n, args[i].v>>], s |-> splits,
                               f |-> fields, legal |-> Legal]))
=============================================================================
