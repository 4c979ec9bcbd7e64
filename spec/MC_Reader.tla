------------------------------ MODULE MC_Reader ------------------------------
EXTENDS Reader, Walk
Seg(n) == [i \in 1..n |-> i % 251]
Ids == {<<2>>, <<31, 33>>, <<31, 30>>, <<63, 129, 0, 7>>, <<31>>, <<>>, <<31, 129>>, <<255, 255, 255, 127>>}
Lens == {<<5, 0>>, <<128, 1>>, <<129, 128, 9>>, <<129, 127>>, <<130, 1>>, <<136, 1, 2, 3, 4, 5, 6, 7, 8>>, <<137, 1>>, <<130, 0>>, <<>>}
Ders == {<<4, 0, 9>>, <<4, 2, 7, 8, 4, 0>>, <<31, 33, 3, 1, 2, 3>>, <<48, 128, 0, 0>>, <<4, 3, 1>>, <<4, 129, 200, 1>>, <<4, 129, 3>>,
  <<4, 136, 255, 255, 255, 255, 255, 255, 255, 255, 1>>, <<4, 30>> \o Seg(30), <<4, 30>> \o Seg(29), <<4, 129, 130>> \o Seg(131)}
Bers == {<<4, 2, 7, 8, 4>>, <<48, 128, 0, 0, 9>>, <<48, 128, 4, 1, 0, 0, 0>>, <<48, 128, 4, 2, 0, 0>>, <<36, 128, 48, 128, 0, 0, 0, 0, 1>>,
  <<0, 0, 1>>, <<48, 128, 0>>, <<48, 128, 4, 129, 1>>, <<0, 2, 0, 0, 5>>, <<48, 128, 4, 26>> \o Seg(26) \o <<0, 0, 1>>,
  <<48, 128, 4, 26>> \o Seg(26) \o <<0>>}
InputSet == {<<"id", s>> : s \in Ids} \cup {<<"len", s>> : s \in Lens} \cup {<<"der", s>> : s \in Ders} \cup {<<"ber", s>> : s \in Bers}

\* For random walks.
WalkBers == { <<48, 128, 36, 128, 4, 3, 1, 2, 3, 0, 0, 2, 1, 0, 0, 0, 9>>, <<63, 129, 2, 128, 4, 129, 130>> \o Seg(130) \o <<0, 0>>, <<48, 128, 48, 4, 2, 2, 1, 0, 12, 1, 97, 0, 0>>, <<48, 128, 31, 255, 255, 3, 2, 5, 6, 0, 0>>, <<191, 255, 127, 130, 1, 4>> \o Seg(260) }
WalkInputs == InputSet \cup {<<m, s>> : m \in {"der", "ber"}, s \in WalkBers \cup Ders \cup Bers}

Thousand == 1000
Going == fail = -1
=============================================================================
