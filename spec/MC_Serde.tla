------------------------------- MODULE MC_Serde -------------------------------
EXTENDS Serde, Walk
A(n) == Rep(97, n)
TextsQ == { <<>>, <<0>>, <<97>>, <<0, 0>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 146, 150>> }
            \cup { A(n) : n \in {126, 127, 128, 129, 255, 256} }
TextsT == TextsQ \cup { A(n) : n \in {65535, 65536} }
InnerTextsQ == { <<>>, <<97>>, <<0, 0>> }
BlobsQ == { <<>>, <<0>>, <<255>>, <<0, 0>>, <<48, 128, 0, 0>>, <<2, 1>> } \cup { Rep(0, n) : n \in {127, 128, 255, 256} }
InnerBlobsQ == { <<>>, <<0, 0>> }

Ints == << I8, U8, I16, U16, I32, U32, I64, U64, I128, U128, ISize, USize >>
Flat == << BoolT, StrT, OctT >> \o Ints
FlatVecs == [i \in 1..Len(Flat) |-> Vec(Flat[i])]
Others == << Deque(I8), Deque(StrT), Linked(I8), Linked(OctT), BSet(I8), BSet(I16), BSet(U64), BSet(I128), BSet(StrT), BSet(OctT), BSet(BoolT),
  HSet(I8), HSet(U16), HSet(StrT), HSet(OctT), BSet(Vec(I8)) >>
Maps == << BMap(I8, BoolT), BMap(StrT, I16), BMap(U64, OctT), BMap(OctT, StrT), HMap(I8, BoolT), HMap(StrT, U32), HMap(BoolT, I128),
  HMap(OctT, OctT), BMap(Vec(I8), BoolT) >>
Nests == << Vec(Vec(I8)), Vec(Vec(StrT)), Deque(Linked(BoolT)), Vec(BSet(U8)), Vec(HSet(I8)), BSet(BSet(I8)),
  Vec(BMap(I8, BoolT)), Vec(HMap(I8, BoolT)), BMap(I8, Vec(I8)), BMap(I8, BMap(I8, BoolT)), HMap(I8, HSet(I8)), HMap(I8, Vec(StrT)),
  BMap(BSet(I8), StrT), Linked(Vec(BoolT)), Vec(Vec(Vec(BoolT))) >>
TypesQ == Flat \o FlatVecs \o Others \o Maps \o Nests

(* Sizes around those at which length octets change, at every level. *)
EdgeTexts == { A(n) : n \in (109..129) }
EdgeTextsT == { A(n) : n \in (109..129) \cup (240..258) }
TypesEdge == << Vec(StrT), Linked(StrT), BMap(I8, StrT), HMap(I8, StrT), BMap(StrT, BoolT), HMap(StrT, BoolT), BSet(StrT), HSet(StrT),
  Vec(Vec(StrT)), Vec(Unk(StrT)), BMap(I8, Unk(StrT)), HMap(I8, Unk(StrT)), BMap(Unk(StrT), BoolT), HMap(Unk(StrT), BoolT), Vec(HMap(BoolT, StrT)) >>

(* Sizes that are not known in advance. *)
TypesUnk == << Unk(BoolT), Unk(I16), Unk(StrT), Unk(OctT), Unk(Vec(I8)), Unk(BMap(I8, BoolT)), Unk(HMap(I8, BoolT)), Vec(Unk(I8)), Vec(Unk(StrT)),
  Vec(Vec(Unk(I8))), Unk(Vec(Unk(BoolT))), Deque(Unk(I8)), Linked(Unk(I8)), BSet(Unk(I8)), HSet(Unk(I8)),
  BMap(Unk(I8), BoolT), BMap(I8, Unk(BoolT)), BMap(Unk(I8), Unk(BoolT)), HMap(Unk(I8), BoolT), HMap(I8, Unk(BoolT)), HMap(Unk(I8), Unk(BoolT)),
  Vec(BMap(Unk(I8), BoolT)), Vec(HMap(I8, Unk(BoolT))), BMap(I8, Vec(Unk(BoolT))) >>
TypesForms == Others \o Maps \o SubSeq(Nests, 1, Len(Nests) - 1) \o << Vec(BoolT), Vec(OctT), Vec(StrT) >>
TypesFormsDeep == << Vec(Vec(Vec(BoolT))) >>
TypesUnkT == TypesUnk \o << Vec(Unk(Vec(Unk(BoolT)))) >>

\* For random walks.
WalkPatterns(w) == { [i \in 1..w |-> RandomElement(0..255)], Rep(0, w \div 2) \o [i \in 1..(w - (w \div 2)) |-> RandomElement(0..255)] }
WalkSeqs(S, n) == { [i \in 1..k |-> RandomElement(S)] : k \in 0..n }
WalkTexts == TextsQ \cup { [i \in 1..n |-> (i * n) % 128] : n \in 1..40 } \cup EdgeTexts
WalkBlobs == BlobsQ \cup { [i \in 1..n |-> (i * n) % 256] : n \in 1..40 } \cup { A(n) : n \in 90..130 }
=============================================================================
