-------------------------------- MODULE C24 --------------------------------
(* Tables written by the generator, and those committed for the chains.    *)
(* A table is recorded with its parameters; sizes are in bytes.            *)
EXTENDS TraceBase, ChainParams
Cache(c, n) == [i \in 1..n |-> MulW(W64(CacheRowsOf(c, i - 1)), W64(64))]
Dataset(c, n) == [i \in 1..n |-> MulW(W64(DatasetRowsOf(c, i - 1)), W64(c.mix))]
WideCache(w, n) == [i \in 1..n |-> WideCacheBytes(w, W64(i - 1))]
WideDataset(w, n) == [i \in 1..n |-> WideDatasetBytes(w, W64(i - 1))]
Expected(e) ==
  IF e.op = "widetable"
  THEN [kind |-> "ok", pkg |-> e.pkg, cache |-> WideCache(e.wide, e.epochs), dataset |-> WideDataset(e.wide, e.epochs)]
  ELSE LET c == ParamsOf(e)
       IN  [kind |-> "ok", pkg |-> e.pkg, cache |-> Cache(c, e.epochs), dataset |-> Dataset(c, e.epochs)]
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
