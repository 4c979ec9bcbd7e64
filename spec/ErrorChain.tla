----------------------------- MODULE ErrorChain -----------------------------
(***************************************************************************)
(* An error of the library, or of foreign origin, on its way up through    *)
(* layers that add context or convert it.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxOps, Contexts

Plain == {"UnterminatedBytes", "RedundantBytes", "OverFlow", "IndefiniteLength", "BadEoc", "ExtraContentsOctet",
          "UnmatchedId", "InvalidUtf8", "InvalidDerBooleanContents", "InvalidKeyValuePair"}
Bases == Plain \cup {"Io", "foreign"}

VARIABLES
  base,     \* what went wrong originally
  wrapped,  \* whether it was wrapped so far
  ops

vars == <<base, wrapped, ops>>

Init == base \in Bases /\ wrapped = (base = "foreign") /\ ops = <<>>

Do(op) == Len(ops) < MaxOps /\ ops' = Append(ops, op) /\ wrapped' = TRUE /\ UNCHANGED base

\* A context is added.
Context(c) == Do(c)
\* It is turned into an anyhow error and back.
ThroughAnyhow == Do("anyhow")
\* It becomes the source of an error of the user's own type.
BehindForeign == ~wrapped /\ Do("behind")
\* It is returned by `?` as an anyhow error and converted back.
Question == ~wrapped /\ Do("question")

Next == (\E c \in Contexts : Context(c)) \/ ThroughAnyhow \/ BehindForeign \/ Question
Spec == Init /\ [][Next]_vars

\* What root_cause gives: the original error, unless there is none of the library.
RootKind == IF base = "foreign" THEN "Anyhow" ELSE base
OwnKind == IF wrapped THEN "Anyhow" ELSE base
\* The plain kinds an error compares equal to.
EqualTo == IF wrapped \/ base \notin Plain THEN {} ELSE {base}
\* How many contexts were added.
Added == Len(SelectSeq(ops, LAMBDA o : o \in Contexts))

\* The cause never changes, whatever happens on the way.
CauseKept == [][RootKind' = RootKind]_vars

Emit == PrintT("C " \o ToJson([k |-> "err", base |-> base, ops |-> ops, root |-> RootKind, own |-> OwnKind,
  eq |-> IF EqualTo = {} THEN "" ELSE base, added |-> Added]))
=============================================================================
