------------------------------ MODULE MC_Writer ------------------------------
EXTENDS Writer, Walk
Going == out \in {"open", "ok"}    \* for random walks
A(n) == Rep(97, n)
ItemsQ == <<
  << BoolT, TRUE >>, << I16, <<1, 0>> >>, << StrT, <<>> >>, << StrT, <<97>> >>, << OctT, <<0, 0>> >>, << Vec(BoolT), <<>> >>, << Vec(I8), << <<1>> >> >>, << Unk(I8), << 3, <<5>> >> >>, << Unk(BoolT), << 2, TRUE >> >>, << Unk(StrT), << 1, <<97>> >> >>,
  << I128, <<127>> \o Rep(255, 15) >>, << StrT, A(130) >>, << OctT, Rep(7, 300) >>, << Vec(StrT), << <<97>>, A(130), <<>> >> >>, << Linked(I8), << <<1>>, <<2>> >> >>, << Deque(OctT), << <<1>>, <<2>> >> >>,
  << Vec(Unk(StrT)), << << 3, A(5) >>, << 0, A(3) >>, << 2, <<>> >> >> >>,
  << BSet(StrT), << <<97>>, <<98>> >> >>, << HSet(I8), << <<1>> >> >>,
  << BMap(I8, BoolT), << << <<1>>, TRUE >>, << <<2>>, FALSE >> >> >>, << HMap(I8, StrT), << << <<1>>, A(3) >> >> >>,
  << BMap(Unk(I8), BoolT), << << <<3, <<1>> >>, TRUE >>, << <<0, <<2>> >>, FALSE >> >> >>,
  << BMap(I8, Unk(BoolT)), << << <<1>>, <<2, TRUE>> >> >> >>, << HMap(Unk(I8), BoolT), << << <<1, <<1>> >>, TRUE >> >> >>, << HMap(I8, Unk(BoolT)), << << <<1>>, <<3, TRUE>> >> >> >>,
  << Vec(Vec(I8)), << << <<1>> >>, << >>, << <<2>>, <<3>> >> >> >>, << Vec(BMap(I8, BoolT)), << << << <<1>>, TRUE >> >> >> >> >>


=============================================================================
