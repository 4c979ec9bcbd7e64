----------------------------- MODULE MC_Objects -----------------------------
EXTENDS Objects, Walk
Ones(n) == Rep(1, n)
Bit(n) == <<1>> \o Rep(0, n)      \* 2^n
None == {}

\* Around every change of the number of identifier octets.
EdgeNumbers == {<<>>, <<1>>, BitsOf(30), BitsOf(31), BitsOf(127), BitsOf(128), Ones(14), Bit(14),
                Ones(63), Bit(63), Ones(127), Bit(127), Ones(128)}
FewNumbers == {<<>>, BitsOf(30), BitsOf(31), BitsOf(127), BitsOf(128), Ones(14), Bit(14), Ones(128)}
WideNumbers == {Ones(129), Bit(140), Ones(210)}

IdsOf(cs, ps, ns) == {<<c, p, n>> : c \in cs, p \in ps, n \in ns}
IdStart == IdsOf({0, 3}, {0, 1}, {<<>>, BitsOf(30), BitsOf(31), Bit(14), Ones(128)} \cup {Bit(140)})
IdStartAll == IdsOf(0..3, 0..1, EdgeNumbers \cup WideNumbers)
PlainIds == {<<0, 0, BitsOf(4)>>, <<2, 1, Bit(14)>>}
OneId == {<<0, 0, BitsOf(4)>>}
InPlaceIds == IdsOf({0, 2}, {0, 1}, {<<>>, BitsOf(31), Bit(14), Bit(140)})

ElementKinds == {"der", "ber", "berind"}
\* The inline capacity of a buffer and every change of the number of length octets.
SmallSizes == {0, 1, 11, 20, 21, 22, 23, 127, 128, 255, 256}
SmallInit == {0, 1, 12, 21, 22, 126, 127, 128, 255, 256}
LargeSizes == {0, 127, 128, 255, 256, 65535, 65536}
LargeInit == {0, 127, 128, 255, 256, 65534, 65535, 65536}
HugeSizes == {65536, 16777215, 16777216}
HugeInit == {16777215, 16777216}
Zero == {0}
FewSizes == {0, 40}
CopySizes == {0, 5, 21, 130}
TinySizes == {0, 2, 128}
ThoroughSizes == {0, 1, 2, 10, 11, 12, 13, 19, 20, 21, 22, 23, 24, 126, 127, 128, 129, 254, 255, 256, 257}

\* For random walks: sizes and numbers between the edges, and long histories.
WalkSizes == (0..26) \cup {60, 125, 126, 127, 128, 129, 130, 200, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 1000}
WalkNumbers == {BitsOf(n) : n \in {0, 1, 5, 29, 30, 31, 32, 77, 127, 128, 129, 300, 1000, 16383, 16384, 16385, 70000}}
                 \cup {Ones(n) : n \in {21, 28, 35, 42, 63, 64, 100, 126, 127, 128}} \cup {Bit(n) : n \in {21, 28, 63, 64, 126, 127}}
WalkIds == IdsOf(0..3, 0..1, {<<>>, BitsOf(4), BitsOf(31), BitsOf(200), Bit(14), Bit(70), Bit(140)})
WalkInit == {0, 1, 5, 12, 13, 18, 19, 20, 21, 22, 23, 100, 126, 127, 128, 254, 255, 256, 400}
=============================================================================
