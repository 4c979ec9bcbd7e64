-------------------------------- MODULE MC_Bulk --------------------------------
EXTENDS Bulk, Walk
AllKinds == Numbers \cup Entries \cup {"str", "oct", "nest"}
PortionsQ == {1, 40, 84, 126, 250, 256, 21840, 65280}
PortionsT == {1, 2, 40, 84, 120, 126, 250, 256, 1000, 4096, 21840, 32767, 65280, 65535}
WalkPortions == 1..300 \cup {1000, 5000, 21840, 32768, 40000, 65280, 65530}
NestPortions == {1, 84, 126, 250, 256, 400}
FirstsQ == {0, 100, 32700, 8388600}
FirstsT == {0, 1, 100, 127, 32700, 32767, 8388600 - 70000}
SmallKinds == {"nest"}
MostKinds == AllKinds \ {"nest"}
=============================================================================
