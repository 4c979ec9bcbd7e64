----------------------------- MODULE MC_Framing -----------------------------
EXTENDS Framing, Walk
AllOctets == 0..255
None == {}
IdTail == {0, 30, 31, 127, 128, 129, 255}
IdTailN == {0, 127, 128, 255}
LenTail == {0, 1, 127, 128, 255}
Zero == {0}
LenTailN == {0, 255}
KeyIdSet == {0, 2, 31, 36, 48, 255}
KeyLenSet == {0, 1, 2, 127, 128, 129, 130, 136, 137, 255}
FillSet == {<<0>>, <<0, 0, 48, 128>>}
FillOne == {<<0>>}
\* Small alphabets for deep nesting.
NestIds == {0, 4, 48, 63}
NestIds2 == {0, 36}
NestLens == {0, 1, 2, 128}
NestLens3 == {0, 2, 128}
NestLens2 == {0, 128}
ZeroOne == {0, 1}
TailOne == {33}

\* For random walks.
Yes == TRUE
Mostly == {0, 2, 4, 12, 16, 31, 36, 48, 49, 63, 127, 128, 160, 191, 223, 255}
WalkLens == {0, 1, 2, 3, 5, 17, 100, 127, 128, 129, 130, 131, 136}
WalkLens2 == {0, 1, 2, 127, 128, 129, 140, 200, 254, 255}
WalkFills == {<<0>>, <<0, 0, 48, 128>>, <<48, 128, 0, 0>>, <<255>>, <<1, 2, 3, 4, 5, 6, 7>>, <<4, 1>>, <<128>>}
Going == ph # "err"
=============================================================================
