--------------------------- MODULE MC_SerdeStream ---------------------------
EXTENDS SerdeStream, Walk
ChunksQ == { <<>>, <<2, 1, 5>>, <<2, 2, 0, 128>>, <<1, 1, 1>>, <<12, 1, 255>>, <<48, 3, 2, 1, 1>>, <<48, 128, 2, 1, 1, 0, 0>>, <<48, 4, 2, 1, 1, 0>>, <<48, 3, 2, 5, 1>>, <<49, 0>>,
  <<2, 5, 1>>, <<31, 30, 1>>, <<2, 128>>, <<2, 129, 5>> }
TypesQ == << I8, BoolT, StrT, Vec(I8), HSet(I8) >>
ChunksT == ChunksQ \cup { <<0, 0>>, <<48, 128, 48, 128, 0, 0, 0, 0>>, <<4, 0>>, <<48, 8, 48, 6, 2, 1, 1, 1, 1, 255>>, <<48, 136, 127, 255, 255, 255, 255, 255, 255, 255>> }
TypesT == << I8, BoolT, Vec(I8), BMap(I8, BoolT), OctT >>

\* For random walks.
WalkChunks == ChunksT \cup { <<o>> : o \in {0, 1, 2, 3, 12, 31, 48, 49, 127, 128, 129, 255} } \cup { <<12, 2, 195, 169>>, <<44, 1, 97>>, <<48, 128>>, <<49, 128, 2, 1, 1, 2, 1, 1, 0, 0>>, <<36, 128, 4, 0, 0, 0>> }
WalkTypes == << I8, U8, I16, I128, BoolT, StrT, OctT, Vec(I8), Linked(I8), HSet(I8), BSet(I8), BMap(I8, BoolT), Vec(Vec(I8)) >>
=============================================================================
