-------------------------- MODULE MC_LengthOctets --------------------------
EXTENDS LengthOctets, Walk
AllOctets == 0..255
MoreOctets == {0, 1, 127, 128, 255}
BitRunSet == 1..(WordBits - 1)
BitRun2Q == {1, 2, 7, 8, 9}
Some64 == {Def(BitsOf(n)) : n \in {0, 1, 2, 126, 127, 128, 129, 255, 256, 65535, 65536}}
          \cup {Def(Rep(1, n)) : n \in {31, 32, 33, 62, 63, 64}}
          \cup {Def(<<1>> \o Rep(0, n)) : n \in {31, 32, 61, 62, 63}}
          \cup {Def(Append(<<1>> \o Rep(0, n), 1)) : n \in {30, 31, 62}}
RepSet == {Indef} \cup {l \in Some64 : Len(l[2]) <= WordBits}

\* For random walks.
Counts == {130, 131, 132, 133, 134, 135, 136}
=============================================================================
