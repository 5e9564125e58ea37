-------------------------------- MODULE C18 --------------------------------
EXTENDS TraceBase, Cuckoo
\* a graph given as a table of <<edge, u, v>>
TableValid(e) ==
  LET End(x) == LET t == CHOOSE t \in Range(e.table) : t[1] = x IN <<t[2], t[3]>>
  IN  CycleValid(e.l, LowMask(e.bits), e.edges, End)
RealValid(e) ==
  IF e.v = "cuckaroo" THEN Len(e.edges) = e.l /\ CuckarooValid(e.bits, e.l, e.header, e.edges)
  ELSE Len(e.edges) = e.l /\ CuckooValid(e.bits, e.l, e.header, e.edges, e.v = "legacy")
Expected(e) == [kind |-> IF (IF e.op = "graph" THEN TableValid(e) ELSE RealValid(e)) THEN "valid" ELSE "invalid"]
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
