------------------------------ MODULE MCManager ------------------------------
(* Model checking of the manager: bounded requests, failures and crashes.   *)
EXTENDS DagManager
CONSTANTS Threads, MaxEpoch, Keep, Mgrs, UseDisk, L1, Requests, Faults, Crashes, Holds, InitFiles, LookAhead
VARIABLES left, crashes, injected, holds,
  recent   \* per manager the epochs asked for, the latest last
vars == <<dvars, left, crashes, injected, holds, recent>>
Kinds == IF L1 THEN {"c", "l"} ELSE {"c"}
Config == [m \in 1..Mgrs |-> [chain |-> 1, n |-> Keep, disk |-> UseDisk, kinds |-> Kinds]]
Names == {<<1, k, e>> : k \in Kinds, e \in 0..MaxEpoch}
Init == /\ \E f \in [Names -> InitFiles] : InitWith(Config, f)
        /\ thr = [t \in 1..Threads |-> [pc |-> "idle", m |-> 1, ep |-> 0, o |-> 0]]
        /\ left = Requests /\ crashes = 0 /\ injected = 0 /\ holds = 0 /\ recent = [m \in 1..Mgrs |-> << >>]
\* thread t belongs to manager 1 + (t-1) % Mgrs
Ask == \E t \in 1..Threads, e \in 0..MaxEpoch :
         /\ left > 0 /\ Want(t, 1 + ((t - 1) % Mgrs), e)
         /\ left' = left - 1 /\ UNCHANGED <<crashes, injected, holds, recent>>
Fail == injected < Faults /\ (\E o \in Objects : objs[o].st = "busy" /\ (Inject(o) \/ InjectRemoval(o))) /\ injected' = injected + 1 /\ UNCHANGED <<left, crashes, holds, recent>>
Die == crashes < Crashes /\ (\E m \in 1..Mgrs : Crash(m)) /\ crashes' = crashes + 1 /\ recent' = [m \in 1..Mgrs |-> IF mgr'[m].top = -1 THEN << >> ELSE recent[m]] /\ UNCHANGED <<left, injected, holds>>
User == /\ holds < Holds
        /\ \E o \in Objects : objs[o].st = "ready" /\ InUse(o) /\ Hold(holds, o)
        /\ holds' = holds + 1 /\ UNCHANGED <<left, crashes, injected, recent>>
Leave == (\E h \in held : Drop(h[1])) /\ UNCHANGED <<left, crashes, injected, holds, recent>>
Move(q, e) == SelectSeq(q, LAMBDA x : x # e) \o <<e>>
Inner ==
  /\ Internal
  /\ recent' = [m \in 1..Mgrs |-> LET T == {t \in 1..Threads : thr[t].m = m /\ thr[t].pc = "want" /\ thr'[t].pc = "wait"}
                                   IN  IF T = {} THEN recent[m] ELSE Move(recent[m], thr[CHOOSE t \in T : TRUE].ep)]
  /\ UNCHANGED <<left, crashes, injected, holds>>
  \* when only what is asked for is to be looked at, nothing is prepared ahead
  /\ LookAhead \/ \A o \in Objects : objs[o].ahead /\ objs[o].st = "new" /\ objs'[o].st = "busy" =>
                     \E t \in 1..Threads : thr[t].o = o
Next == Ask \/ Fail \/ Die \/ User \/ Leave \/ Inner
Spec == Init /\ [][Next]_vars /\ WF_vars(Inner)
\* C03: the epochs kept are those asked for last
Recency == \A m \in 1..Mgrs :
             LET q == recent[m]  n == IF Len(q) < Keep THEN Len(q) ELSE Keep
             IN  EpochsOf(mgr[m].lru) = SubSeq(q, Len(q) - n + 1, Len(q))
\* what a manager keeps follows Retention
Kept == INSTANCE Retention WITH N <- Keep,
  lru <- [i \in DOMAIN mgr[1].lru |-> [ep |-> objs[mgr[1].lru[i]].ep, id |-> mgr[1].lru[i]]],
  fut <- IF mgr[1].fut = 0 THEN [ep |-> -1, id |-> 0] ELSE [ep |-> objs[mgr[1].fut].ep, id |-> mgr[1].fut],
  top <- mgr[1].top, made <- Cardinality({o \in Objects : objs[o].m = 1 /\ objs[o].st # "gone"})
Retains == Kept!RInit /\ [][\E e \in 0..MaxEpoch : Kept!Request(e)]_<<mgr[1].lru, mgr[1].fut, mgr[1].top>>
Served == \A t \in 1..Threads : [](thr[t].pc = "want" => <>(thr[t].pc = "idle"))
=============================================================================
