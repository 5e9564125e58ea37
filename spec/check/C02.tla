-------------------------------- MODULE C02 --------------------------------
(* Calls made while others are under way on the same client: the answer is *)
(* the one the call has when it runs alone.  A data race reported by the   *)
(* race detector is recorded as a line of its own and never allowed.       *)
EXTENDS TraceBase
Allowed(e) == e.op = "conc" /\ e.ans.kind = "answer" /\ e.ans = e.alone
Matches == pos > 0 => Lived(Calls[pos]) /\ Allowed(Calls[pos])
=============================================================================
