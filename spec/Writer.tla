-------------------------------- MODULE Writer --------------------------------
(***************************************************************************)
(* An encoding on its way into a writer that takes octets as it pleases:   *)
(* together with the one before or in a delivery of its own, after an      *)
(* interruption, or not at all, by an error or by taking nothing.          *)
(* Serialization succeeds exactly when every octet has been taken.         *)
(***************************************************************************)
EXTENDS Types, Json

CONSTANTS
  Items,        \* sequence of << type, value >>
  MaxFree       \* encodings of up to this many octets meet every writer

VARIABLES it, ev, out
vars == <<it, ev, out>>

T == Items[it][1]
x == Items[it][2]
enc == Encode(T, x)

Ways == {"join", "cut", "int", "int2"}

Init == it \in 1..Len(Items) /\ ev = <<>> /\ out = "open"

Running == out = "open"
Free == Len(enc) <= MaxFree

Take1(w) ==
  /\ Running /\ Len(ev) < Len(enc)
  /\ ~Free /\ ev # <<>> => w = ev[1]
  /\ ev' = Append(ev, w)
  /\ out' = IF Len(ev) + 1 = Len(enc) THEN "ok" ELSE "open"
  /\ UNCHANGED it

Refuse(how) ==
  /\ Running
  /\ out' = how
  /\ UNCHANGED <<it, ev>>

Next == (\E w \in Ways : Take1(w)) \/ (\E how \in {"fail", "zero"} : Refuse(how))
Spec == Init /\ [][Next]_vars

Accepted == Take(enc, Len(ev))
NoFalseSuccess == out = "ok" <=> Accepted = enc
Emit == ~Running =>
  PrintT("C " \o ToJson([k |-> "wr", ty |-> Name(T), un |-> Unordered(T), v |-> x, ev |-> ev, how |-> out, out |-> enc]))
=============================================================================
