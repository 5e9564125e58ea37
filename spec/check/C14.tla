-------------------------------- MODULE C14 --------------------------------
EXTENDS TraceBase, ProgPow, ChainData
Ok(v) == [kind |-> "ok", val |-> v]
Client(e) ==
  LET ep == EpochOf(e.cfg, e.height)
      ds == TLCEval(DsOf(e.cfg, ep))
      h == TLCEval(Compute(e.v, e.hash, e.height, e.nonce, DatasetRowsOf(e.cfg, ep) \div 2, ds, TLCEval(L1Words(ds, L1Items))))
  IN  Ok(<<h.mix, h.digest>>)
Mix(e) ==
  LET ds == TLCEval(DsOf(e.cfg, 0))
  IN  Ok(<<MixHash(DivSmall(e.height, e.period), e.seed, DatasetRowsOf(e.cfg, 0) \div 2, ds, TLCEval(L1Words(ds, L1Items)))>>)
\* the parts: choice of operations, generators, single rounds on given registers
RECURSIVE Draw(_, _)
Draw(k, n) == IF n = 0 THEN << >> ELSE LET x == TLCEval(KissNext(k)) IN <<x[1]>> \o Draw(x[2], n - 1)
Pairs(e) == TLCEval([i \in 1..Len(e.sel) |-> IF e.op = "math" THEN RandomMath(e.a, e.b, e.sel[i]) ELSE RandomMerge(e.a, e.b, e.sel[i])])
Sequences(e) == LET g == TLCEval(ProgInit(e.seed)) IN <<[i \in 1..Regs |-> g.src[i] - 1], [i \in 1..Regs |-> g.dst[i] - 1]>>
\* the item is the one of the row that the registers select
Round(e) == RoundOn(e.mix, e.r, TLCEval(Program(e.seed, 4)), e.rows[RoundIndex(e.mix, e.r, Len(e.rows)) + 1], e.l1)
Expected(e) ==
  CASE e.op = "mix" -> Mix(e)
    [] e.op \in {"math", "merge"} -> Ok(Pairs(e))
    [] e.op = "kiss" -> Ok(Draw(e.state, e.n))
    [] e.op = "init" -> Ok(InitMix(e.seed))
    [] e.op = "sequences" -> Ok(Sequences(e))
    [] e.op = "round" -> Ok(Round(e))
    [] OTHER -> Client(e)
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
