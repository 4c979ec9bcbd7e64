------------------------------- MODULE MC_Runs -------------------------------
EXTENDS Runs
OpenIdSet == {<<48>>, <<63, 129, 0>>}
PrimIdSet == {<<4>>, <<31, 255, 127>>, <<0>>}
CountQ == {1, 2, 3, 127, 128, 129, 255, 256, 257, 40000}
CountD == {1, 2, 127, 128, 129, 255, 256, 257}
CountT == {1, 2, 3, 10, 127, 128, 129, 130, 254, 255, 256, 257, 32767, 32768, 65535, 65536}
SizeQ == {0, 1, 2, 21, 22, 127, 128, 255, 256, 5000, 65535, 65536}
SizeN == {2}
SizeT == 0..30 \cup 120..135 \cup 250..260 \cup {4090, 4096, 8192, 65530, 65534, 65535, 65536, 65537, 70000, 131072, 16777215}
SizeBig == {65536, 1048576, 16777215, 8388608}
=============================================================================
