-------------------------------- MODULE C16 --------------------------------
EXTENDS TraceBase, Equihash
Expected(e) == IF e.op = "indices" THEN [kind |-> "ok", val |-> [i \in 1..Pow2(e.k) |-> W32(Indices(e.n, e.k, e.soln)[i])]] ELSE [kind |-> IF Valid(e.n, e.k, e.person, e.twist, e.header, e.soln) THEN "valid" ELSE "invalid"]
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
