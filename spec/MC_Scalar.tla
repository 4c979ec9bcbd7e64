------------------------------ MODULE MC_Scalar ------------------------------
EXTENDS Scalar, Walk
EdgeQ == {0, 1, 127, 128, 129, 255}
EdgeT == {0, 1, 2, 63, 64, 126, 127, 128, 129, 191, 192, 254, 255}
RunQ == {0, 255, 128}
RunT == {0, 1, 127, 128, 170, 255}


=============================================================================
