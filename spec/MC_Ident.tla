------------------------------ MODULE MC_Ident ------------------------------
EXTENDS Ident, Walk
AllOctets == 0..255
MoreOctets == {0, 1, 2, 3, 4, 30, 31, 63, 64, 126, 127, 128, 129, 130, 131, 132, 191, 192, 254, 255}
RunOctetSet == {128, 129, 170, 255}
RunFirstSet == {31, 255}
RunSecondSet == {129, 131, 132, 255}
RunLenSet == {4, 7, 8, 14, 15, 16, 17, 18, 19, 21, 22, 30, 250}
AfterRunQ == {0, 1, 127, 128, 129, 255}
BitRun2Q == {1, 2, 7, 8}
BitRunSet == 1..127

\* For random walks.
Escapes == {31, 63, 95, 127, 159, 191, 223, 255}
=============================================================================
