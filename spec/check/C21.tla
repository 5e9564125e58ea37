-------------------------------- MODULE C21 --------------------------------
EXTENDS TraceBase, Eaglesong
Expected(e) == [kind |-> "ok", val |-> <<IF e.op = "cycle" THEN EaglesongCycle(e.unit, e.len) ELSE Eaglesong(e.in)>>]
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
