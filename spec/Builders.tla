------------------------------ MODULE Builders ------------------------------
(***************************************************************************)
(* Building an element from an identifier and contents given in pieces.    *)
(***************************************************************************)
EXTENDS Octets, TLC, Json

CONSTANTS
  Kinds,        \* subset of {"der", "ber", "berind"}
  Ids,          \* identifiers <<class, pc, number>>
  FirstSizes,   \* sizes of the first piece
  MoreSizes,    \* sizes of the following pieces
  MaxPieces

VARIABLES kind, id, pieces, done
vars == <<kind, id, pieces, done>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))

Init ==
  /\ kind \in Kinds
  /\ id \in Ids
  /\ pieces = <<>>
  /\ done = FALSE

AddPiece(n) ==
  /\ ~done
  /\ Len(pieces) < MaxPieces
  /\ Len(pieces) > 0 => n \in MoreSizes /\ pieces[1] \in MoreSizes
  /\ pieces' = Append(pieces, n)
  /\ UNCHANGED <<kind, id, done>>

Finish ==
  /\ ~done
  /\ done' = TRUE
  /\ UNCHANGED <<kind, id, pieces>>

Next == (\E n \in Offer(FirstSizes \cup MoreSizes, vars) : AddPiece(n)) \/ Finish
Spec == Init /\ [][Next]_vars

IdO == EncId(id[1], id[2], id[3])
LenO == IF kind = "berind" THEN EncLen(Indef) ELSE EncLen(Def(BitsOf(Sum(pieces))))

\* The header in front of the contents says where the element ends.
HeaderFits ==
  LET h == ParseHeader(IdO \o LenO) IN
    /\ h = [res |-> "ok", i |-> Len(IdO), l |-> Len(LenO)]
    /\ kind # "berind" => SmallLen(HeaderLen(IdO \o LenO, h)) = Sum(pieces)

Emit == done => PrintT("C " \o ToJson([k |-> "bld", kind |-> kind, id |-> IdO, len |-> LenO, pieces |-> pieces]))
=============================================================================
