----------------------------- MODULE TraceBase -----------------------------
(* Frame for checking a recorded list of calls: the recorder writes one    *)
(* JSON object per call; a checking module defines which recorded results  *)
(* the specification allows.  Calls are independent of each other, so that *)
(* every call is a state of its own (0 -> -i -> i) and TLC's workers share *)
(* the work.                                                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLE pos

Calls == ndJsonDeserialize(IOEnv.TRACE_FILE)
\* an operation that ended the recording process was not answered at all
Lived(e) == e.op # "died"
TInit == pos = 0
TNext == \/ pos = 0 /\ pos' \in {-i : i \in 1..Len(Calls)}
         \/ pos < 0 /\ pos' = -pos
TSpec == TInit /\ [][TNext]_pos
=============================================================================
