-------------------------------- MODULE C11 --------------------------------
EXTENDS TraceBase, ChainParams
\* number of completed seed epochs of a height
SeedEpochs(c, height) ==
  IF c.q = 1 THEN ToInt(FoldLeft(LAMBDA h, f : DivSmall(h, f), height, c.elf))
  ELSE LET h == FoldLeft(LAMBDA h, f : DivSmall(h, f), AddW(height, height), c.elf) IN ToInt(h)
EpochWord(c, height) == FoldLeft(LAMBDA h, f : DivSmall(h, f), height, c.elf)
Expected(e) ==
  LET c == ParamsOf(e)
  IN  [kind |-> "ok", val |-> IF e.op = "epoch" THEN EpochWord(c, e.height) ELSE KeccakIter(SeedEpochs(c, e.height))]
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])

\* the seeds of the epochs in reach differ, also in the eight bytes that name files
SeedCount == 4100
ASSUME SeedsDiffer == Cardinality({SubSeq(KeccakIter(i), 1, 8) : i \in 0..(SeedCount - 1)}) = SeedCount
=============================================================================
