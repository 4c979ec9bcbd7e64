------------------------------- MODULE Elements -------------------------------
(***************************************************************************)
(* Elements built bottom up on a stack and offered to every type: a leaf   *)
(* is pushed, or the topmost elements are wrapped into one, by definite or *)
(* indefinite length.                                                      *)
(***************************************************************************)
EXTENDS Types, Json

CONSTANTS
  TypeList,
  Leaves,       \* elements, and octets that are none
  WrapIds,      \* identifiers of wrappers
  MaxOps,
  MaxLeaves,
  MaxWidth,     \* how many elements are wrapped at once
  WithIndef     \* whether the indefinite form is offered

VARIABLES stack, ops, leaves
vars == <<stack, ops, leaves>>

Init == stack = <<>> /\ ops = 0 /\ leaves = 0

Push(l) ==
  /\ ops < MaxOps /\ leaves < MaxLeaves
  /\ stack' = Append(stack, l)
  /\ ops' = ops + 1
  /\ leaves' = leaves + 1

Wrap(id, n, indef) ==
  /\ ops < MaxOps
  /\ n <= Len(stack)
  /\ LET k == Len(stack) - n
         c == Concat(SubSeq(stack, k + 1, Len(stack)))
     IN stack' = Append(Take(stack, k), IF indef THEN EncIndef(id, c) ELSE Enc(id, c))
  /\ ops' = ops + 1
  /\ UNCHANGED leaves

\* The stack can still become one element.
Reducible == Len(stack) <= 1 + (MaxOps - ops) * (MaxWidth - 1)

Next ==
  \/ \E l \in Offer(Leaves, vars) : Push(l)
  \/ \E id \in Offer(WrapIds, vars), n \in Offer(0..MaxWidth, vars), i \in (IF WithIndef THEN BOOLEAN ELSE {FALSE}) : Wrap(id, n, i)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What each type makes of the element; types for which nothing but the    *)
(* identifier is wrong are only named.                                     *)
(***************************************************************************)
Ready == Len(stack) = 1 /\ ParseBer(stack[1]) = Ok(Len(stack[1]))
el == stack[1]
IsDer == IsOk(ParseDer(el))

Outcome(d) == IF d.ok THEN [v |-> d.v] ELSE [e |-> d.errs]
\* The errors that the identifier and the form of the length alone account for.
Outer == {WrongId} \cup (IF Parts(el).indef THEN {NoIndefinite} ELSE {})
Boring(d) == ~d.ok /\ WrongId \in d.errs /\ d.errs \subseteq Outer

Row(T) ==
  LET b == Decode("ber", T, el)
      d == IF IsDer THEN Decode("der", T, el) ELSE Bad({WrongId})
  IN IF Boring(b) /\ Boring(d) THEN <<>>
     ELSE << [t |-> Name(T), b |-> Outcome(b), d |-> Outcome(d)] >>

Omitted(rows) == SelectSeq([i \in 1..Len(TypeList) |-> Name(TypeList[i])],
                           LAMBDA n : \A i \in 1..Len(rows) : rows[i].t # n)

\* What DER accepts, BER accepts alike.
DerWithinBer == Ready /\ IsDer =>
  \A i \in 1..Len(TypeList) :
    LET d == Decode("der", TypeList[i], el) IN d.ok => Decode("ber", TypeList[i], el) = d

\* DER accepts nothing but the encoding of the value, tables apart.
Canonical == Ready /\ IsDer =>
  \A i \in 1..Len(TypeList) :
    LET d == Decode("der", TypeList[i], el)
    IN d.ok /\ TypeList[i].t \notin {"set", "map"} /\ ~Unordered(TypeList[i])
         => \/ Encode(TypeList[i], d.v) = el
            \/ TypeList[i].t = "list" /\ TypeList[i].e.t \in {"set", "map"}

Emit == Ready =>
  LET rows == FlattenSeq([i \in 1..Len(TypeList) |-> Row(TypeList[i])])
  IN PrintT("C " \o ToJson([k |-> "de", in |-> el, o |-> Outer, der |-> ParseDer(el).res,
                             rows |-> rows, x |-> Omitted(rows)]))
=============================================================================
