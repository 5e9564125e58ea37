-------------------------------- MODULE C12 --------------------------------
EXTENDS TraceBase, ChainParams
FromData(e) ==
  LET c == ParamsOf(e)
      ds == TLCEval(DsOf(c, e.epoch))
  IN  [kind |-> "ok", val |-> CASE e.op = "cache" -> FlattenSeq(TLCEval(DsCache(ds)))
                                [] e.op = "l1"    -> L1Words(ds, c.l1)
                                [] e.op = "item"  -> WideItem(ds, e.index, e.width)]
\* an item computed from given rows
Expected(e) == IF e.op = "rows" THEN [kind |-> "ok", val |-> DatasetItem(e.rows, e.index, e.parents)] ELSE FromData(e)
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
