-------------------------------- MODULE C10 --------------------------------
EXTENDS TraceBase, ChainParams
\* sizes are recorded in bytes
Expected(e) ==
  IF e.op = "wide"       \* epochs and parameters of up to 64 bits
  THEN LET w == WideOf(e) IN [kind |-> "ok", val |-> << WideCacheBytes(w, e.epoch), WideDatasetBytes(w, e.epoch) >>]
  ELSE LET c == ParamsOf(e)
       IN  [kind |-> "ok", val |-> << MulW(W64(CacheRowsOf(c, e.epoch)), W64(64)), MulW(W64(DatasetRowsOf(c, e.epoch)), W64(c.mix)) >>]
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
