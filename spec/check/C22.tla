-------------------------------- MODULE C22 --------------------------------
(* Recorded sequences of calls against ClientUse.                           *)
EXTENDS ClientUse, Json, IOUtils
VARIABLES run, pos
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
Ev == Runs[run].events[pos + 1]
Is(e) == pos < Len(Runs[run].events) /\ Ev.ev = e
TInit == run \in DOMAIN Runs /\ pos = 0 /\ UseInit(Runs[run].alg)
Step == pos' = pos + 1 /\ UNCHANGED run
TNext == \/ Is("use") /\ Ev.ans.kind = "answer" /\ ~Ev.changed /\ Use(Ev.call, Ev.lens, Ev.zero, Ev.ans) /\ Step
         \/ Is("again") /\ Again(Ev.call, Ev.ans) /\ Step
         \/ Is("kept") /\ Ev.ok /\ UNCHANGED uvars /\ Step
TSpec == TInit /\ [][TNext]_<<uvars, run, pos>>
Reached == pos = Len(Runs[run].events) => PrintT(<<"ACCEPTED", run>>)
Far == PrintT(<<"POS", run, pos>>)
=============================================================================
