----------------------------- MODULE ChainData -----------------------------
(* From a chain's parameters to the data of a height.  Parameters:         *)
(*   elf      factors (each below 2^15) of the epoch length                *)
(*   q        seed epochs per epoch                                        *)
(*   ci, cg   initial size and growth of the cache, in 64-byte rows        *)
(*   di, dg   the same for the dataset, in rows of the mix width           *)
(*   rounds, parents                                                       *)
EXTENDS Dag

EpochOf(c, height) == ToInt(FoldLeft(LAMBDA h, f : DivSmall(h, f), height, c.elf))
SeedOf(c, epoch) == KeccakIter(epoch * c.q)
CacheRowsOf(c, epoch) == Rows(c.ci, c.cg, epoch)
DatasetRowsOf(c, epoch) == Rows(c.di, c.dg, epoch)
\* the same for parameters and epochs given as words, of chains of any size
Wide(c) == [ci |-> W64(c.ci), cg |-> W64(c.cg), di |-> W64(c.di), dg |-> W64(c.dg), mix |-> c.mix]
WideCacheBytes(w, epoch) == MulW(RowsW(w.ci, w.cg, epoch), W64(64))
WideDatasetBytes(w, epoch) == MulW(RowsW(w.di, w.dg, epoch), W64(w.mix))
DsOf(c, epoch) == [seed |-> TLCEval(SeedOf(c, epoch)), rows |-> TLCEval(CacheRowsOf(c, epoch)), rounds |-> c.rounds, parents |-> c.parents]
=============================================================================
