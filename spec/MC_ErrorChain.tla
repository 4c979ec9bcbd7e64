--------------------------- MODULE MC_ErrorChain ---------------------------
EXTENDS ErrorChain
=============================================================================
