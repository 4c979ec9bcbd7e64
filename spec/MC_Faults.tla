------------------------------- MODULE MC_Faults -------------------------------
EXTENDS Faults, Walk
Singles == { Vec(I8), Deque(StrT), Linked(BoolT), Vec(I128), BSet(I8), HSet(StrT), BMap(I8, BoolT), HMap(I8, BoolT), BMap(StrT, I16), HMap(StrT, OctT) }
Nested == { Vec(Vec(I8)), Vec(Vec(BoolT)), Vec(HSet(I8)), BSet(BSet(I8)), Vec(BSet(StrT)), BMap(I8, Vec(I8)), BMap(Vec(I8), BoolT), HMap(I8, HSet(I8)),
  Vec(BMap(I8, BoolT)), Vec(HMap(I8, BoolT)), BMap(I8, BMap(I8, BoolT)), HMap(I8, BMap(I8, BoolT)), Linked(Vec(BoolT)), Deque(Linked(BoolT)), Vec(Vec(Vec(BoolT))),
  Vec(Unk(Vec(Unk(BoolT)))), Vec(BMap(Unk(I8), BoolT)), BMap(BSet(I8), StrT), HMap(I8, Vec(StrT)), Vec(HMap(BoolT, StrT)) }
Few == {0, 2}
Some4 == {0, 2, 11, 25}
Lots == {0, 1, 2, 10, 17}
Hundreds == {99, 130, 257}
One == {1}
Big == {Vec(I8), HMap(I8, BoolT)}
Ends == {0, 1}
Anywhere == 0..40
AllTypes == Singles \cup Nested
=============================================================================
