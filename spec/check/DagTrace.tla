------------------------------ MODULE DagTrace ------------------------------
(* Are recorded runs of the real manager behaviours of DagManager?  Each    *)
(* line of the file is a run: a configuration, the initial directory and    *)
(* the events seen in order.  Between two events the model may take steps   *)
(* that leave no event (Hidden).  A run is accepted when some behaviour     *)
(* reaches its last event; "ACCEPTED run" is printed then.                  *)
EXTENDS DagManager, Json, IOUtils
VARIABLES run, pos, ids, mapping, acts, due
tvars == <<dvars, run, pos, ids, mapping, acts, due>>

Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
Events == Runs[run].events
SetOf(s) == {s[i] : i \in DOMAIN s}
FilesOf(list) == [x \in {<<y[1], y[2], y[3]>> : y \in SetOf(list)} |->
                    (CHOOSE y \in SetOf(list) : y[1] = x[1] /\ y[2] = x[2] /\ y[3] = x[3])[4]]
ConfigOf(r) == [m \in DOMAIN Runs[r].cfg |-> [chain |-> Runs[r].cfg[m].chain, n |-> Runs[r].cfg[m].n,
                                              disk |-> Runs[r].cfg[m].disk, kinds |-> SetOf(Runs[r].cfg[m].kinds)]]
TInit ==
  /\ run \in DOMAIN Runs
  /\ InitWith(ConfigOf(run), FilesOf(Runs[run].files))
  /\ thr = [t \in 1..Runs[run].threads |-> [pc |-> "idle", m |-> 0, ep |-> 0, o |-> 0]]
  /\ pos = 0
  /\ ids = << >>          \* identity seen by the user -> object
  /\ mapping = << >>      \* identity of a mapping -> <<object, kind>>
  /\ acts = << >>         \* background goroutine -> the object it prepares
  /\ due = [t \in 1..Runs[run].threads |-> 0]   \* identity that the open request of t will return, 0 when not recorded

Ev == Events[pos + 1]
Is(name) == pos < Len(Events) /\ Ev.ev = name
Step == pos' = pos + 1
Keep == UNCHANGED <<ids, mapping, acts, due>>
\* the event's operation was carried out for object o: a request works on its
\* own object, a background goroutine always on the same one
By(o) ==
  IF Ev.by = 0 THEN UNCHANGED acts
  ELSE IF Ev.by \in DOMAIN thr THEN thr[Ev.by].o = o /\ UNCHANGED acts
  ELSE /\ Ev.by \in DOMAIN acts => acts[Ev.by] = o
       /\ acts' = [b \in DOMAIN acts \cup {Ev.by} |-> IF b = Ev.by THEN o ELSE acts[b]]

\* the files and the number of unfinished files as an event shows them
Shown == /\ {x \in DOMAIN file' : file'[x] # None} = {<<y[1], y[2], y[3]>> : y \in SetOf(Ev.files)}
         /\ \A y \in SetOf(Ev.files) : file'[<<y[1], y[2], y[3]>>] = y[4]
         /\ Cardinality(temp') + Runs[run].litter = Ev.temps
         /\ Ev.foreign

Call == Is("call") /\ Want(Ev.t, Ev.m, Ev.e) /\ Step /\ due' = [due EXCEPT ![Ev.t] = Ev.obj] /\ UNCHANGED <<ids, mapping, acts>>
\* known identities and objects correspond one to one
Same(i, o) == IF i \in DOMAIN ids THEN ids[i] = o ELSE \A j \in DOMAIN ids : ids[j] # o
\* the locked section picks the object that the request will return
Locked(t) ==
  /\ Lock(t)
  /\ IF due[t] = 0 THEN UNCHANGED ids
     ELSE /\ Same(due[t], thr'[t].o)
          /\ ids' = [i \in DOMAIN ids \cup {due[t]} |-> IF i = due[t] THEN thr'[t].o ELSE ids[i]]
  /\ UNCHANGED <<mapping, acts, due>>
Return == Is("ret") /\ Ev.ok /\ Ret(Ev.t) /\ Ev.obj = due[Ev.t] /\ Step /\ Keep
\* one storage operation changed the directory; an event may tell the file
\* that is concerned (chain 0: not known)
About(x) == Ev.about[1] = 0 \/ <<Ev.about[1], Ev.about[2], Ev.about[3]>> = x
\* the miss that precedes a new temporary file need not be seen earlier
MissAndMake(o, k) ==
  /\ OnDisk(o) /\ objs[o].ld[k] = "?" /\ (~Usable(StateOf(Name(o, k))) \/ Name(o, k) \in objs[o].late) /\ CanGenerate(o, k) /\ TempOf(o, k) = {}
  /\ temp' = temp \cup {[o |-> o, k |-> k, full |-> FALSE]}
  /\ objs' = [objs EXCEPT ![o].ld[k] = "miss"]
  /\ UNCHANGED <<cfg, mgr, file, thr, held>>
Touch ==
  /\ Is("dir")
  /\ \E o \in Objects : By(o) /\
                        \/ \E k \in KindsOf(o) : /\ About(Name(o, k))
                                                 /\ MakeTemp(o, k) \/ MissAndMake(o, k) \/ Publish(o, k) \/ DropTemp(o, k)
                        \/ \E x \in Expired(o) : About(x) /\ Remove(o, x)
  /\ Shown /\ Step /\ UNCHANGED <<ids, mapping, due>>
\* an operation failed; when it was the removal of an expired file, the file may stay
Failure ==
  /\ Is("fault")
  /\ \E o \in Objects :
       /\ By(o) /\ objs[o].st = "busy"
       /\ LET x == <<Ev.about[1], Ev.about[2], Ev.about[3]>>
          IN  IF Ev.op # "remove" THEN Inject(o)
              ELSE IF Ev.about[1] = 0 THEN InjectRemoval(o)
              ELSE Expires(o, x) /\ objs' = [objs EXCEPT ![o].late = @ \cup {x}] /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>
  /\ Step /\ UNCHANGED <<ids, mapping, due>>
\* a complete file was mapped for reading
Map ==
  /\ Is("map")
  /\ \E o \in Objects : /\ By(o) /\ Ev.k \in KindsOf(o) /\ Name(o, Ev.k) = <<Ev.chain, Ev.k, Ev.e>>
                        /\ LoadHit(o, Ev.k) \/ (Reopen(o, Ev.k) /\ objs'[o].data[Ev.k] = "map")
                        /\ mapping' = [i \in DOMAIN mapping \cup {Ev.id} |-> IF i = Ev.id THEN <<o, Ev.k>> ELSE mapping[i]]
  /\ UNCHANGED <<ids, due>> /\ Step
Unmap == Is("unmap") /\ Ev.id \in DOMAIN mapping /\ Collect(mapping[Ev.id][1], mapping[Ev.id][2]) /\ Step /\ Keep
Die == Is("crash") /\ Crash(Ev.m) /\ Shown /\ Step /\ Keep
\* thread t keeps what it is about to be given
HoldIt ==
  /\ Is("hold") /\ thr[Ev.t].pc = "done"
  /\ \A k \in AllKinds : objs[thr[Ev.t].o].data[k] = "map" => k \in objs[thr[Ev.t].o].maps
  /\ Hold(Ev.h, thr[Ev.t].o) /\ Step /\ Keep
Use == Is("use") /\ Ev.ok /\ UNCHANGED dvars /\ Step /\ Keep
\* file names: different data, different name
Names == Is("names") /\ Cardinality({x[1] : x \in SetOf(Ev.list)}) = Len(Ev.list) /\ UNCHANGED dvars /\ Step /\ Keep
DropIt == Is("drop") /\ Drop(Ev.h) /\ Step /\ Keep
\* everything has come to rest: nothing unfinished, no descriptor or mapping
\* beyond those of the objects in use
LiveMaps == {<<o, k>> \in Objects \X AllKinds : k \in objs[o].maps}
Quiet ==
  /\ Is("quiet")
  /\ \A m \in Managers : Idle(m)
  /\ UNCHANGED dvars
  /\ Shown
  /\ Ev.maps = Cardinality(LiveMaps) /\ Ev.fds <= Ev.maps
  /\ Ev.collected => \A p \in LiveMaps : InUse(p[1])
  /\ Step /\ Keep

Visible == Call \/ Return \/ Touch \/ Failure \/ Map \/ Unmap \/ Die \/ HoldIt \/ DropIt \/ Use \/ Names \/ Quiet
(* Steps without an event.  Those that can only enable more are taken at    *)
(* once, one after the other.  That an object is ready matters to nobody    *)
(* before its mappings go or everything is at rest.                         *)
EagerObjects == {o \in Objects : \/ objs[o].st = "new"
                                 \/ objs[o].st = "busy" /\ ~cfg[objs[o].m].disk
                                 \/ OnDisk(o) /\ HasData(o) /\ ~Prepares(o)
                                 \/ /\ OnDisk(o) /\ HasData(o) /\ Leftover(o) = {}
                                    /\ Is("quiet") \/ (Is("unmap") /\ Ev.id \in DOMAIN mapping /\ mapping[Ev.id][1] = o)}
EagerTemps == {x \in temp : x.o > 0 /\ ~x.full}
\* what a request still reads after its last visible step is not seen
EagerThreads == {t \in DOMAIN thr : thr[t].pc = "wait" /\ HasData(thr[t].o)}
Eager == \/ EagerObjects # {} /\ LET o == CHOOSE o \in EagerObjects : TRUE IN Begin(o) \/ InMemory(o) \/ Ready(o)
         \/ EagerObjects = {} /\ EagerTemps # {} /\ LET x == CHOOSE x \in EagerTemps : TRUE IN FillTemp(x.o, x.k)
         \/ EagerObjects = {} /\ EagerTemps = {} /\ EagerThreads # {} /\ LastUse(CHOOSE t \in EagerThreads : TRUE)
Busy == EagerObjects # {} \/ EagerTemps # {} \/ EagerThreads # {}
Hidden ==
  /\ pos < Len(Events)
  /\ \E o \in Objects, k \in AllKinds :
       /\ k \in KindsOf(o)
       /\ \/ objs[o].nf > 0 /\ LoadMiss(o, k)
          \/ NoTemp(o, k)
          \/ AbandonTemp(o, k)
          \/ Reopen(o, k) /\ (objs'[o].data[k] = "mem" \/ Runs[run].unseen)
          \/ Runs[run].unseen /\ (LoadHit(o, k) \/ Collect(o, k))
TNext == IF Busy THEN Eager /\ Keep /\ UNCHANGED <<run, pos>>
         ELSE \/ Visible /\ UNCHANGED run
              \/ Hidden /\ Keep /\ UNCHANGED <<run, pos>>
              \/ (\E t \in DOMAIN thr : Locked(t)) /\ UNCHANGED <<run, pos>>
TSpec == TInit /\ [][TNext]_tvars
Reached == pos = Len(Events) => PrintT(<<"ACCEPTED", run>>)
=============================================================================
