-------------------------------- MODULE C25 --------------------------------
EXTENDS TraceBase, NamedClients
Expected(e) ==
  CASE e.op = "verify" -> VerifyAnswer(e.name, e.header, e.soln)
    [] e.op = "cycle" -> CycleAnswer(e.name, e.header, e.edges)
    [] e.op = "dag" -> DagAnswer(e.name, e.hash, e.height, e.nonce)
    [] e.op = "hash" -> HashAnswer(e.name, e.in, e.a, e.b)
    [] e.op = "sizes" -> SizesAnswer(e.name, e.epoch)
    [] e.op = "epoch" -> EpochAnswer(e.name, e.height)
    [] e.op = "seed" -> SeedAnswer(e.name, e.height)
Matches == pos > 0 => Lived(Calls[pos]) /\ IF Calls[pos].op = "files" THEN FilesAnswer(Calls[pos].files) ELSE Calls[pos].res = Expected(Calls[pos])
=============================================================================
