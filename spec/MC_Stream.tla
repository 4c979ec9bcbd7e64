----------------------------- MODULE MC_Stream -----------------------------
EXTENDS Stream, Walk
ChunkSet == {
  <<4, 1, 170>>,                                \* a primitive
  <<0, 0>>,                                     \* end of contents, alone
  <<48, 128, 2, 1, 5, 0, 0>>,                   \* indefinite
  <<48, 128, 48, 128, 0, 0>>,                   \* indefinite, one terminator short
  <<191, 129, 0, 3, 4, 1, 7>>,                  \* long identifier, an element inside
  <<4, 5, 1>>,                                  \* contents cut short, unless more follows
  <<4, 129, 5>>,                                \* redundant length
  <<31, 128>>,                                  \* redundant identifier
  <<4, 137, 1>>,                                \* overflowing length
  <<31, 255>>                                   \* identifier cut short, unless more follows
}
AllParsers == {"id", "der", "ber"}

\* For random walks.
WalkChunks == ChunkSet \cup { <<o>> : o \in 0..255 } \cup { <<48, 128>>, <<48, 0>>, <<2, 1, 1>>, <<36, 128, 4, 1, 1, 0, 0>>, <<63, 129, 1, 1, 9>>, <<4, 129, 128>> \o Rep(7, 128), <<48, 6, 4, 1, 1, 4, 1, 2>> }
=============================================================================
