----------------------------- MODULE MC_Elements -----------------------------
EXTENDS Elements, Walk
E1(id, c) == Enc(<<id>>, c)

Scalars == { E1(1, <<0>>), E1(1, <<255>>), E1(1, <<1>>), E1(1, <<>>), E1(1, <<0, 0>>),
  E1(2, <<0>>), E1(2, <<127>>), E1(2, <<128>>), E1(2, <<255>>), E1(2, <<0, 128>>), E1(2, <<255, 127>>), E1(2, <<0, 255>>), E1(2, <<0, 127>>), E1(2, <<255, 128>>), E1(2, <<>>), E1(2, <<1, 0>>),
  E1(2, <<0>> \o Rep(255, 2)), E1(2, <<127>> \o Rep(255, 3)), E1(2, <<0>> \o Rep(255, 4)), E1(2, <<0, 128>> \o Rep(0, 3)),
  E1(2, <<128>> \o Rep(0, 7)), E1(2, <<0>> \o Rep(255, 8)), E1(2, <<1>> \o Rep(0, 8)), E1(2, <<127>> \o Rep(255, 15)), E1(2, <<0>> \o Rep(255, 16)), E1(2, <<1>> \o Rep(0, 16)),
  E1(12, <<>>), E1(12, <<97>>), E1(12, <<0, 0>>), E1(12, <<195, 169>>), E1(12, <<195>>), E1(12, <<255>>), E1(12, <<237, 160, 128>>), E1(12, <<192, 128>>), E1(12, <<244, 144, 128, 128>>),
  E1(44, <<>>), E1(44, <<97>>), E1(44, <<255>>), E1(44, <<12, 1, 97>>),
  E1(4, <<>>), E1(4, <<0>>), E1(4, <<0, 0>>), E1(36, <<>>), E1(36, <<4, 1, 97>>), E1(36, <<255>>),
  \* identifiers close to the expected ones
  E1(33, <<255>>), E1(34, <<1>>), E1(65, <<255>>), E1(66, <<1>>), E1(130, <<1>>), E1(194, <<1>>), E1(76, <<97>>), E1(68, <<97>>), E1(140, <<97>>), E1(0, <<>>), E1(0, <<0>>), E1(5, <<>>), E1(10, <<1>>), E1(3, <<0>>),
  E1(16, <<>>), E1(17, <<>>), E1(16, <<2, 1, 1>>), E1(112, <<>>), E1(176, <<2, 1, 1>>), E1(240, <<>>), E1(113, <<2, 1, 1>>), <<31, 31, 0>>, <<31, 129, 16, 0>>, <<63, 48, 3, 2, 1, 1>>,
  \* primitives by indefinite length
  EncIndef(<<1>>, <<>>), EncIndef(<<2>>, <<>>), EncIndef(<<2>>, <<1, 1, 0>>), EncIndef(<<12>>, <<>>), EncIndef(<<44>>, <<12, 1, 97>>), EncIndef(<<4>>, <<>>), EncIndef(<<36>>, <<4, 1, 97>>), EncIndef(<<1>>, <<1, 1, 255>>) }

\* Octets that are no elements, for inside of wrappers.
Broken == { <<2>>, <<2, 1>>, <<2, 2, 1>>, <<48>>, <<48, 128>>, <<2, 129, 1, 1>>, <<31, 30, 0>>, <<2, 137, 1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0>>, <<2, 136, 255, 255, 255, 255, 255, 255, 255, 255>> }

Few == { E1(2, <<1>>), E1(2, <<0, 128>>), E1(1, <<255>>), E1(1, <<1>>), E1(12, <<97>>), E1(44, <<97>>), E1(4, <<0, 0>>), E1(36, <<1>>), E1(12, <<255>>), <<2, 1>>, EncIndef(<<2>>, <<>>) }
Pairing == { E1(2, <<1>>), E1(2, <<2>>), E1(1, <<255>>), E1(1, <<0>>) }
PairingT == { E1(2, <<1>>), E1(2, <<2>>), E1(1, <<255>>), E1(12, <<97>>), E1(48, <<>>), <<2, 1>> }

P(k, v) == Enc(<<48>>, k \o v)
K1 == E1(2, <<1>>)
K2 == E1(2, <<2>>)
KN == E1(2, <<255>>)
Entries == { P(K1, E1(1, <<0>>)), P(K1, E1(1, <<255>>)), P(K2, E1(1, <<255>>)), P(KN, E1(1, <<0>>)), P(K2, K1), P(K1, K2), EncIndef(<<48>>, K1 \o E1(1, <<0>>)),
  P(K1, <<>>), P(<<>>, <<>>), P(K1, K2 \o K1), P(K1, E1(1, <<255>>) \o E1(1, <<255>>)), P(K1, E1(1, <<255>>) \o <<0>>), P(K1, <<1, 1>>), Enc(<<49>>, K1 \o E1(1, <<255>>)), K1, K2, KN, P(E1(1, <<255>>), K1),
  E1(0, <<>>), <<48, 3, 2>> }

Ids1 == { <<48>>, <<49>>, <<2>>, <<36>>, <<176>>, <<16>> }
Ids2 == { <<48>>, <<49>> }

TypesD == << BoolT, I8, U8, I16, U16, I32, U32, I64, U64, I128, U128, ISize, USize, StrT, OctT,
  Vec(I8), Vec(U8), Vec(BoolT), Vec(StrT), Vec(OctT), Deque(I8), Linked(I8), BSet(I8), BSet(StrT), HSet(I8), HSet(OctT),
  Vec(Vec(I8)), Vec(Vec(BoolT)), Vec(HSet(I8)), BSet(BSet(I8)), Vec(BSet(StrT)),
  BMap(I8, BoolT), HMap(I8, BoolT), BMap(StrT, I16), HMap(StrT, OctT), BMap(I8, Vec(I8)), Vec(BMap(I8, BoolT)), Vec(HMap(I8, BoolT)), BMap(Vec(I8), BoolT), HMap(I8, HSet(I8)), BMap(I8, BMap(I8, BoolT)), BMap(I8, I8), HMap(I8, I8) >>
TypesM == << BMap(I8, BoolT), HMap(I8, BoolT), BMap(I8, I8), HMap(I8, I8), BSet(I8), HSet(I8), Vec(I8), Vec(BMap(I8, I8)), Vec(BSet(I8)), BSet(BSet(I8)), Vec(Vec(I8)), BMap(Vec(I8), I8), BMap(I8, BSet(I8)), HMap(I8, BMap(I8, BoolT)) >>
TypesE == << BMap(I8, BoolT), HMap(I8, BoolT), BMap(I8, I8), HMap(I8, I8), BSet(I8), HSet(I8), Vec(I8), BSet(Vec(I8)), Vec(BSet(I8)) >>
AllLeaves == Scalars \cup Broken

\* For random walks: mostly what fits together.
Sound == { E1(1, <<0>>), E1(1, <<255>>), E1(2, <<0>>), E1(2, <<1>>), E1(2, <<2>>), E1(2, <<77>>), E1(2, <<255>>), E1(2, <<128>>), E1(2, <<127>>), E1(12, <<>>), E1(12, <<97>>), E1(12, <<195, 169>>), E1(4, <<>>), E1(4, <<0>>), E1(4, <<1, 2, 3>>),
  P(K1, E1(1, <<0>>)), P(K2, E1(1, <<255>>)), P(K1, K2), P(K2, K2), P(E1(12, <<97>>), E1(2, <<1>>)), P(E1(12, <<98>>), E1(2, <<1, 0>>)), E1(48, K1 \o K2), E1(48, <<>>), E1(49, K1), E1(12, Rep(97, 130)), E1(4, Rep(0, 126)) }
WalkLeaves == Sound \cup Few \cup Entries
=============================================================================
