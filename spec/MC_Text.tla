------------------------------- MODULE MC_Text -------------------------------
EXTENDS Text, Walk
\* one octet on either side of every bound
Edges == {0, 97, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
Few == {0, 97, 128, 191, 194, 224, 255}
Every == 0..255
Two == {65, 128}

\* For random walks: whatever may come next is likely.
WalkAlphabet == (0..255)
=============================================================================
