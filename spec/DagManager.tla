----------------------------- MODULE DagManager -----------------------------
(* The manager of per-epoch data: bounded map of epochs, look-ahead,       *)
(* preparation of an epoch's files, storage directory shared by managers   *)
(* and processes, failing storage operations, crashes, and the life of     *)
(* memory mappings.                                                        *)
(*                                                                         *)
(* A manager answers requests.  The locked section of a request (Lock)     *)
(* picks or creates the object of the epoch; an object is prepared once,   *)
(* kind by kind, by whoever comes first.  Files are identified by chain,   *)
(* kind and epoch.  Their states:                                          *)
(*   none   no such file        good  complete and right                   *)
(*   junk   recognisably not what is wanted (length or header)             *)
(*   stuck  junk that cannot be replaced by renaming (an empty directory)  *)
(*   full   junk that cannot be removed either (other directories)         *)
(*   part   looks right but is not complete                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Mutation      \* "none", or a planted error of the model (see model/Mutants)

VARIABLES
  cfg,     \* sequence of managers: [chain, n (epochs kept), disk, kinds]
  mgr,     \* per manager [lru : objects, least recently used first; fut : object or 0; top : highest epoch requested]
  objs,    \* all objects, see NewObject
  file,    \* [<<chain, kind, epoch>> -> state]
  temp,    \* unfinished files [o, k, full]; o < 0 when nobody is left to finish it
  thr,     \* threads [pc, m, ep, o]
  held     \* handles held by users: set of <<handle, object>>
dvars == <<cfg, mgr, objs, file, temp, thr, held>>

None == "none"
AllKinds == {"c", "l"}
Managers == DOMAIN cfg
Objects == DOMAIN objs
Name(o, k) == <<cfg[objs[o].m].chain, k, objs[o].ep>>
KindsOf(o) == cfg[objs[o].m].kinds
Usable(s) == s \in {"good", "part"}
Blocked(s) == s \in {"stuck", "full"}
StateOf(name) == IF name \in DOMAIN file THEN file[name] ELSE None
SetFile(name, s) == file' = [x \in DOMAIN file \cup {name} |-> IF x = name THEN s ELSE file[x]]

NewObject(m, e) ==
  [m |-> m, ep |-> e, st |-> "new",
   ahead |-> FALSE,                         \* prepared before anybody asked
   ld |-> [k \in AllKinds |-> "?"],         \* outcome of looking for a stored file
   data |-> [k \in AllKinds |-> None],      \* where the data is
   fld |-> {},                              \* kinds whose unfinished file it has filled
   pub |-> {},                              \* kinds it has published
   right |-> TRUE,                          \* no data but the right one has been used
   rm |-> {},                               \* expired files it has removed or failed to remove
   late |-> {},                             \* files that have appeared since it began, or could not be removed
   nf |-> 0, nr |-> 0,                      \* failed storage operations (nr: removals) not accounted for yet
   maps |-> {}]                             \* mappings that exist
InitWith(c, f) ==
  /\ cfg = c
  /\ mgr = [m \in DOMAIN c |-> [lru |-> << >>, fut |-> 0, top |-> -1]]
  /\ objs = << >>
  /\ file = f
  /\ temp = {}
  /\ held = {}

(* ---------------------------------------------------------------- requests *)
Want(t, m, e) ==
  /\ thr[t].pc = "idle"
  /\ thr' = [thr EXCEPT ![t] = [pc |-> "want", m |-> m, ep |-> e, o |-> 0]]
  /\ UNCHANGED <<cfg, mgr, objs, file, temp, held>>

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Find(m, e) == {i \in DOMAIN mgr[m].lru : objs[mgr[m].lru[i]].ep = e}
Lock(t) ==
  /\ thr[t].pc = "want"
  /\ LET m == thr[t].m  e == thr[t].ep  g == mgr[m]  hit == Find(m, e)
     IN  IF hit # {} THEN
           LET i == CHOOSE i \in hit : TRUE  o == g.lru[i]
           IN  /\ mgr' = [mgr EXCEPT ![m].lru = IF Mutation = "fifo" THEN g.lru ELSE Append(Without(g.lru, i), o)]
               /\ thr' = [thr EXCEPT ![t].pc = "wait", ![t].o = o]
               /\ UNCHANGED objs
         ELSE
           LET kept == IF Len(g.lru) >= cfg[m].n THEN Tail(g.lru) ELSE g.lru
               reuse == g.fut # 0 /\ objs[g.fut].ep = e /\ Mutation # "no-reuse"
               fresh == IF reuse THEN << >> ELSE << NewObject(m, e) >>
               o == IF reuse THEN g.fut ELSE Len(objs) + 1
               ahead == reuse \/ g.fut = 0 \/ objs[g.fut].ep <= e
               more == IF ahead THEN << [NewObject(m, e + 1) EXCEPT !.ahead = TRUE] >> ELSE << >>
           IN  /\ objs' = (objs \o fresh) \o more
               /\ mgr' = [mgr EXCEPT ![m] = [lru |-> Append(kept, o),
                                             fut |-> IF ahead THEN Len(objs) + Len(fresh) + 1 ELSE g.fut,
                                             top |-> IF e > g.top THEN e ELSE g.top]]
               /\ thr' = [thr EXCEPT ![t].pc = "wait", ![t].o = o]
  /\ UNCHANGED <<cfg, file, temp, held>>

HasData(o) == \A k \in KindsOf(o) : objs[o].data[k] # None
\* the caller has read the last of the data
LastUse(t) ==
  /\ thr[t].pc = "wait"
  /\ IF Mutation = "no-wait" THEN TRUE ELSE HasData(thr[t].o)
  /\ thr' = [thr EXCEPT ![t].pc = "done"]
  /\ UNCHANGED <<cfg, mgr, objs, file, temp, held>>
Ret(t) ==
  /\ thr[t].pc = "done"
  /\ thr' = [thr EXCEPT ![t].pc = "idle"]
  /\ UNCHANGED <<cfg, mgr, objs, file, temp, held>>

(* ------------------------------------------------------------- preparation *)
Begin(o) ==
  /\ objs[o].st = "new"
  /\ objs' = [objs EXCEPT ![o].st = "busy"]
  /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>
\* without storage
InMemory(o) ==
  /\ objs[o].st = "busy" /\ ~cfg[objs[o].m].disk
  /\ objs' = [objs EXCEPT ![o].st = "ready", ![o].data = [k \in AllKinds |-> IF k \in KindsOf(o) THEN "mem" ELSE None]]
  /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>

OnDisk(o) == objs[o].st = "busy" /\ cfg[objs[o].m].disk
LoadHit(o, k) ==
  /\ OnDisk(o) /\ k \in KindsOf(o) /\ objs[o].ld[k] = "?"
  /\ Usable(StateOf(Name(o, k)))
  /\ objs' = [objs EXCEPT ![o].ld[k] = "hit", ![o].data[k] = "map", ![o].maps = @ \cup {k},
                          ![o].right = @ /\ StateOf(Name(o, k)) = "good"]
  /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>
LoadMiss(o, k) ==
  /\ OnDisk(o) /\ k \in KindsOf(o) /\ objs[o].ld[k] = "?"
  /\ LET free == ~Usable(StateOf(Name(o, k))) \/ Name(o, k) \in objs[o].late
     IN  /\ free \/ objs[o].nf > 0
         /\ objs' = [objs EXCEPT ![o].ld[k] = "miss", ![o].nf = IF free THEN @ ELSE @ - 1]
  /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>

Pending(o, k) == OnDisk(o) /\ k \in KindsOf(o) /\ objs[o].ld[k] = "miss" /\ objs[o].data[k] = None
\* the L1 data is computed from the cache
CanGenerate(o, k) == k = "c" \/ objs[o].data["c"] # None
Owner(o) == IF Mutation = "shared-temp" THEN 1 ELSE o
TempOf(o, k) == {x \in temp : x.o = Owner(o) /\ x.k = k /\ objs[x.o].ep = objs[o].ep}
MakeTemp(o, k) ==
  /\ Pending(o, k) /\ CanGenerate(o, k) /\ k \notin objs[o].pub /\ k \notin objs[o].fld
  /\ TempOf(o, k) = {} \/ Mutation = "shared-temp"
  /\ temp' = (temp \ TempOf(o, k)) \cup {[o |-> Owner(o), k |-> k, full |-> FALSE]}
  /\ UNCHANGED <<cfg, mgr, objs, file, thr, held>>
FillTemp(o, k) ==
  /\ Pending(o, k)
  /\ \E x \in TempOf(o, k) : ~x.full /\ temp' = (temp \ {x}) \cup {[x EXCEPT !.full = TRUE]}
  /\ objs' = [objs EXCEPT ![o].fld = @ \cup {k}]
  /\ UNCHANGED <<cfg, mgr, file, thr, held>>
Margin == IF Mutation = "early-expiry" THEN 1 ELSE 0
Expires(o, x) == x[1] = cfg[objs[o].m].chain /\ x[3] <= objs[o].ep - cfg[objs[o].m].n + Margin
\* those that have ever been there
Expired(o) == {x \in DOMAIN file : Expires(o, x)}
\* whether p may have looked for file x in vain before x appears
Notices(p, x) == /\ OnDisk(p)
                 /\ \/ \E k \in KindsOf(p) : Name(p, k) = x /\ objs[p].ld[k] = "?"
                    \/ Expires(p, x) /\ x \notin objs[p].rm /\ StateOf(x) = None
Publish(o, k) ==
  /\ Pending(o, k) /\ ~Blocked(StateOf(Name(o, k)))
  /\ \E x \in TempOf(o, k) :
       /\ k \in objs[o].fld \/ Mutation = "early-publish"
       /\ temp' = temp \ {x}
       /\ SetFile(Name(o, k), IF x.full THEN "good" ELSE "part")
  /\ objs' = [p \in Objects |->
                [objs[p] EXCEPT !.pub = IF p = o THEN @ \cup {k} ELSE @,
                                !.late = IF Notices(p, Name(o, k)) THEN @ \cup {Name(o, k)} ELSE @]]
  /\ UNCHANGED <<cfg, mgr, thr, held>>
\* the published file is used; when it has gone again meanwhile, memory is
Reopen(o, k) ==
  /\ Pending(o, k) /\ k \in objs[o].pub
  /\ \/ Usable(StateOf(Name(o, k)))
        /\ objs' = [objs EXCEPT ![o].data[k] = "map", ![o].maps = @ \cup {k}, ![o].right = @ /\ StateOf(Name(o, k)) = "good"]
     \/ ~Usable(StateOf(Name(o, k))) /\ objs' = [objs EXCEPT ![o].data[k] = "mem"]
     \/ Usable(StateOf(Name(o, k))) /\ objs[o].nf > 0 /\ objs' = [objs EXCEPT ![o].data[k] = "mem", ![o].nf = @ - 1]
  /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>
\* storage fails: memory is used and nothing is left behind
NoTemp(o, k) ==
  /\ Pending(o, k) /\ CanGenerate(o, k) /\ TempOf(o, k) = {} /\ k \notin objs[o].pub
  /\ objs[o].nf > 0 /\ objs' = [objs EXCEPT ![o].data[k] = "mem", ![o].nf = @ - 1]
  /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>
DropTemp(o, k) ==
  /\ Pending(o, k)
  /\ \E x \in TempOf(o, k) : temp' = IF Mutation = "leave-temp" THEN temp ELSE temp \ {x}
  /\ LET free == Blocked(StateOf(Name(o, k)))
     IN  (free \/ objs[o].nf > 0) /\ objs' = [objs EXCEPT ![o].data[k] = "mem", ![o].nf = IF free THEN @ ELSE @ - 1]
  /\ UNCHANGED <<cfg, mgr, file, thr, held>>

\* storage fails so badly that even the unfinished file cannot be removed
AbandonTemp(o, k) ==
  /\ Pending(o, k)
  /\ \E x \in TempOf(o, k) : temp' = (temp \ {x}) \cup {[x EXCEPT !.o = 0 - @]}
  /\ LET free == Blocked(StateOf(Name(o, k)))
     IN  /\ (free \/ objs[o].nf > 0) /\ objs[o].nr > 0
         /\ objs' = [objs EXCEPT ![o].data[k] = "mem", ![o].nf = IF free THEN @ ELSE @ - 1, ![o].nr = @ - 1]
  /\ UNCHANGED <<cfg, mgr, file, thr, held>>

(* -------------------------------------------------------------- expiration *)
Prepares(o) == OnDisk(o) /\ \E k \in KindsOf(o) : objs[o].ld[k] = "miss"
Remove(o, x) ==
  /\ Prepares(o) /\ x \in Expired(o) \ objs[o].rm /\ StateOf(x) \notin {None, "full"}
  /\ SetFile(x, None)
  /\ objs' = [objs EXCEPT ![o].rm = @ \cup {x}]
  /\ UNCHANGED <<cfg, mgr, temp, thr, held>>
RemoveFails(o, x) ==
  /\ Prepares(o) /\ x \in Expired(o) \ (objs[o].rm \cup objs[o].late)
  /\ objs[o].nr > 0 /\ objs' = [objs EXCEPT ![o].late = @ \cup {x}, ![o].nr = @ - 1]
  /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>
\* expired files that it can only have seen and has not dealt with
Leftover(o) == {x \in Expired(o) \ (objs[o].rm \cup objs[o].late) : StateOf(x) # None /\ ~Blocked(StateOf(x))}
Ready(o) ==
  /\ OnDisk(o) /\ HasData(o)
  /\ ~Prepares(o) \/ Leftover(o) = {}
  /\ objs' = [objs EXCEPT ![o].st = "ready"]
  /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>

(* ----------------------------------------------------------------- outside *)
\* a storage operation carried out for o fails
Inject(o) == objs' = [objs EXCEPT ![o].nf = @ + 1] /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>
InjectRemoval(o) == objs' = [objs EXCEPT ![o].nr = @ + 1] /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>
\* the process with manager m dies; another one may use the directory later
Crash(m) ==
  /\ mgr' = [mgr EXCEPT ![m] = [lru |-> << >>, fut |-> 0, top |-> -1]]
  /\ objs' = [o \in Objects |-> IF objs[o].m = m THEN [NewObject(m, 0) EXCEPT !.st = "gone"] ELSE objs[o]]
  /\ temp' = {IF x.o > 0 /\ objs[x.o].m = m THEN [x EXCEPT !.o = 0 - x.o] ELSE x : x \in temp}
  /\ thr' = [t \in DOMAIN thr |-> IF thr[t].m = m /\ thr[t].pc # "idle" THEN [thr[t] EXCEPT !.pc = "idle", !.o = 0] ELSE thr[t]]
  /\ held' = {h \in held : objs[h[2]].m # m}
  /\ UNCHANGED <<cfg, file>>

(* ---------------------------------------------------------------- mappings *)
Hold(h, o) == held' = held \cup {<<h, o>>} /\ UNCHANGED <<cfg, mgr, objs, file, temp, thr>>
Drop(h) == held' = {x \in held : x[1] # h} /\ UNCHANGED <<cfg, mgr, objs, file, temp, thr>>
InUse(o) ==
  \/ objs[o].st \in {"new", "busy"}
  \/ \E m \in Managers : mgr[m].fut = o \/ \E i \in DOMAIN mgr[m].lru : mgr[m].lru[i] = o
  \/ \E t \in DOMAIN thr : thr[t].pc = "wait" /\ thr[t].o = o
  \/ \E h \in held : h[2] = o
Collect(o, k) ==
  /\ (~InUse(o) \/ Mutation = "early-collect") /\ k \in objs[o].maps
  /\ objs' = [objs EXCEPT ![o].maps = @ \ {k}]
  /\ UNCHANGED <<cfg, mgr, file, temp, thr, held>>

(* what happens without anybody asking *)
Internal ==
  \/ \E t \in DOMAIN thr : Lock(t) \/ LastUse(t) \/ Ret(t)
  \/ \E o \in Objects :
       \/ Begin(o) \/ InMemory(o) \/ Ready(o)
       \/ \E k \in KindsOf(o) :
            LoadHit(o, k) \/ LoadMiss(o, k) \/ MakeTemp(o, k) \/ FillTemp(o, k) \/ Publish(o, k)
            \/ Reopen(o, k) \/ NoTemp(o, k) \/ DropTemp(o, k) \/ AbandonTemp(o, k) \/ Collect(o, k)
       \/ \E x \in Expired(o) : Remove(o, x) \/ RemoveFails(o, x)

(* --------------------------------------------------------------- properties *)
\* C01, C06, C07: what a request returns is there and right
RightData == \A t \in DOMAIN thr : thr[t].o # 0 /\ thr[t].pc \in {"idle", "done"} /\ objs[thr[t].o].st # "gone"
               => HasData(thr[t].o) /\ objs[thr[t].o].right /\ objs[thr[t].o].ep = thr[t].ep
\* C03
Bounded == \A m \in Managers : Len(mgr[m].lru) <= cfg[m].n
Shared == \A m \in Managers : \A i, j \in DOMAIN mgr[m].lru : objs[mgr[m].lru[i]].ep = objs[mgr[m].lru[j]].ep => i = j
\* C04
NextPrepared == \A m \in Managers : mgr[m].top >= 0 => mgr[m].fut # 0 /\ objs[mgr[m].fut].ep = mgr[m].top + 1
AheadOnce == \A o, p \in Objects : objs[o].m = objs[p].m /\ objs[o].ep = objs[p].ep /\ objs[o].ahead /\ objs[p].ahead
               /\ objs[o].st # "gone" /\ objs[p].st # "gone" => o = p
NothingBeyond == \A o \in Objects : objs[o].st # "gone" => objs[o].ep <= mgr[objs[o].m].top + 1
\* C03, C04: what is kept are the epochs asked for last, and the data prepared
\* ahead is used by the first request for it
EpochsOf(q) == [i \in DOMAIN q |-> objs[q[i]].ep]
Reused == [][\A t \in DOMAIN thr : thr[t].pc = "want" /\ thr'[t].pc = "wait" =>
               LET g == mgr[thr[t].m]  same == {o \in Objects : objs[o].m = thr[t].m /\ objs[o].ep = thr[t].ep
                                                              /\ (o = g.fut \/ \E i \in DOMAIN g.lru : g.lru[i] = o)}
               IN  same # {} => thr'[t].o \in same]_dvars
\* C05
NeverPartial == \A x \in DOMAIN file : file[x] # "part"
\* C06
Idle(m) == /\ \A t \in DOMAIN thr : thr[t].m = m => thr[t].pc = "idle"
           /\ \A o \in Objects : objs[o].m = m => objs[o].st \in {"ready", "gone"}
NoLeftovers == (\A m \in Managers : Idle(m)) => \A x \in temp : x.o < 0
\* C08: only expired files disappear, junk is replaced or expires, everything else stays
OnlyExpiredGo == [][\A x \in DOMAIN file : file[x] = "good" /\ StateOf(x)' # "good" =>
                       \E o \in Objects : objs[o].st = "busy" /\ x[1] = cfg[objs[o].m].chain /\ x[3] <= objs[o].ep - cfg[objs[o].m].n]_dvars
\* C09
UsedStaysMapped == \A o \in Objects : InUse(o) /\ objs[o].st = "ready" => \A k \in KindsOf(o) : objs[o].data[k] = "map" => k \in objs[o].maps
=============================================================================
