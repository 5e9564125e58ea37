-------------------------------- MODULE C19 --------------------------------
EXTENDS TraceBase, HeavyHash
Expected(e) == IF e.op = "matrix" THEN [kind |-> "ok", val |-> FirstFull(e.state)] ELSE IF e.op = "drawn" THEN [kind |-> "ok", val |-> <<HeavyDrawn(e.words, e.hash, e.ts, e.nonce)>>]
               ELSE IF Refused(e.hash) THEN [kind |-> "err"] ELSE [kind |-> "ok", val |-> <<HeavyHash(e.hash, e.ts, e.nonce)>>]
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
