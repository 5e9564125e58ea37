-------------------------------- MODULE C17 --------------------------------
EXTENDS TraceBase, BeamHash
Expected(e) == [kind |-> IF BeamValid(e.person, e.header, e.soln) THEN "valid" ELSE "invalid"]
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
