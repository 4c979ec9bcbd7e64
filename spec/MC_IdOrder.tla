---------------------------- MODULE MC_IdOrder ----------------------------
EXTENDS IdOrder
Ones(n) == Rep(1, n)
Bit(n) == <<1>> \o Rep(0, n)
Ids1 == {EncId(c, p, n) : c \in 0..3, p \in 0..1,
         n \in {<<>>, <<1>>, BitsOf(30), BitsOf(31), BitsOf(127), BitsOf(128), BitsOf(129), BitsOf(255), BitsOf(256),
                Ones(14), Bit(14), Ones(128), Bit(127), Bit(128), Bit(200)}}
=============================================================================
