-------------------------------- MODULE C13 --------------------------------
EXTENDS TraceBase, Ethash, ChainData
Expected(e) ==
  LET ep == EpochOf(e.cfg, e.height)
      h == TLCEval(Hashimoto(e.hash, e.nonce, DatasetRowsOf(e.cfg, ep), TLCEval(DsOf(e.cfg, ep))))
  IN  [kind |-> "ok", val |-> <<h.mix, h.digest>>]
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
