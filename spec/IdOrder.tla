------------------------------ MODULE IdOrder ------------------------------
(***************************************************************************)
(* Two identifiers, compared octet by octet.                               *)
(***************************************************************************)
EXTENDS Octets, TLC, Json

CONSTANTS Ids

VARIABLES a, b, i, cmp
vars == <<a, b, i, cmp>>

Init == a \in Ids /\ b \in Ids /\ i = 1 /\ cmp = ""

Next ==
  /\ cmp = ""
  /\ IF i > Len(a) \/ i > Len(b)
     THEN cmp' = (IF Len(a) < Len(b) THEN "less" ELSE IF Len(a) > Len(b) THEN "greater" ELSE "equal") /\ i' = i
     ELSE IF a[i] # b[i]
          THEN cmp' = (IF a[i] < b[i] THEN "less" ELSE "greater") /\ i' = i
          ELSE cmp' = "" /\ i' = i + 1
  /\ UNCHANGED <<a, b>>

Spec == Init /\ [][Next]_vars

EqualMeansSame == cmp = "equal" => a = b
DifferentIsOrdered == cmp # "" /\ a # b => cmp # "equal"
Emit == cmp # "" => PrintT("C " \o ToJson([k |-> "idcmp", a |-> a, b |-> b, cmp |-> cmp]))
=============================================================================
