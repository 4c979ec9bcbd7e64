---------------------------- MODULE MC_Builders ----------------------------
EXTENDS Builders, Walk
Ones(n) == Rep(1, n)
Bit(n) == <<1>> \o Rep(0, n)
IdsOf(cs, ps, ns) == {<<c, p, n>> : c \in cs, p \in ps, n \in ns}
AllIds == IdsOf(0..3, 0..1, {<<>>, BitsOf(4), BitsOf(30), BitsOf(31), BitsOf(127), BitsOf(128), Ones(14), Bit(14),
                             Bit(63), Ones(128), Bit(150)})
FewIds == {<<0, 0, BitsOf(4)>>, <<2, 1, BitsOf(128)>>, <<3, 1, Ones(128)>>}
SizesQ == (0..40) \cup (120..132) \cup (250..260) \cup {65534, 65535, 65536, 65537}
SizesT == (0..520) \cup (65530..65540)
PieceSizes == {0, 1, 2, 17, 63, 64, 126, 127, 128, 200}
PieceSizesT == {0, 1, 2, 16, 17, 18, 63, 64, 65, 126, 127, 128, 129, 200, 255, 256}
None == {}
HugeSizes == {16777210, 16777215, 16777216}


=============================================================================
