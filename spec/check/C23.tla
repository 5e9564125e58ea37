-------------------------------- MODULE C23 --------------------------------
(* Recorded uses of the primitives against PrimUse.                         *)
EXTENDS PrimUse, Json, IOUtils
VARIABLES run, pos
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
Ev == Runs[run].events[pos + 1]
Is(e) == pos < Len(Runs[run].events) /\ Ev.ev = e
TInit == run \in DOMAIN Runs /\ pos = 0 /\ PrimInit
Step == pos' = pos + 1 /\ UNCHANGED run
TNext ==
  \/ Is("call") /\ Ev.res.kind = "ok" /\ ~Ev.changed /\ Ev.res.val = FunctionValue(Ev.f, Ev.a) /\ Same /\ Step
  \/ Is("new") /\ Ev.res.kind = "ok" /\ Create(Ev.obj, Ev.state) /\ Step
  \/ Is("hash") /\ Ev.res.kind = "ok" /\ HashTo(Ev.obj, Ev.data, Ev.before, Ev.res.val) /\ Step
  \/ Is("sip") /\ Ev.res.kind = "ok" /\ SipOp(Ev.obj, Ev.op, Ev.arg, Ev.res.val) /\ Step
  \/ Is("xo") /\ Ev.res.kind = "ok" /\ XoOp(Ev.obj, Ev.res.val) /\ Step
  \/ Is("kept") /\ Ev.ok /\ Same /\ Step      \* results handed out before are as they were
TSpec == TInit /\ [][TNext]_<<objs, run, pos>>
Reached == pos = Len(Runs[run].events) => PrintT(<<"ACCEPTED", run>>)
Far == PrintT(<<"POS", run, pos>>)
=============================================================================
