-------------------------------- MODULE C15 --------------------------------
EXTENDS TraceBase, Octopus, ChainData
Expected(e) ==
  LET ep == EpochOf(e.cfg, e.height)
  IN  [kind |-> "ok", val |-> <<Octopus(e.hash, e.nonce, DatasetRowsOf(e.cfg, ep), TLCEval(DsOf(e.cfg, ep)))>>]
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
