----------------------------- MODULE Histories ------------------------------
(* One user of one manager who waits until everything is at rest between    *)
(* requests: the state graph over what then decides the manager's further   *)
(* behaviour (see What).  Every edge is printed; tools/checks.py walks      *)
(* along all of them and lets the real manager take the same walks.         *)
EXTENDS DagManager
CONSTANTS MaxEpoch, Keep, UseDisk, L1
VARIABLE from   \* where the request under way was made
Init == /\ InitWith(<<[chain |-> 1, n |-> Keep, disk |-> UseDisk, kinds |-> IF L1 THEN {"c", "l"} ELSE {"c"}]>>, << >>)
        /\ thr = <<[pc |-> "idle", m |-> 1, ep |-> 0, o |-> 0]>>
        /\ from = << >>
\* all internal steps, one after the other (which one comes first makes no
\* difference to where it ends, as MCMem and MCDisk show for all orders)
Tasks == {o \in Objects : objs[o].st \in {"new", "busy"}}
First == CHOOSE o \in Tasks : \A p \in Tasks : o <= p
Work ==
  IF thr[1].pc = "want" THEN Lock(1)
  ELSE IF Tasks # {} THEN
    LET o == First
        Kind == IF \E k \in KindsOf(o) : objs[o].ld[k] = "?" THEN IF objs[o].ld["c"] = "?" THEN "c" ELSE "l"
                ELSE IF objs[o].data["c"] = None THEN "c" ELSE "l"
        X == Leftover(o)
    IN  \/ Begin(o)
        \/ InMemory(o)
        \/ /\ OnDisk(o) /\ ~HasData(o)
           /\ IF objs[o].ld[Kind] = "?" THEN LoadHit(o, Kind) \/ LoadMiss(o, Kind)
              ELSE IF Kind \in objs[o].pub THEN Reopen(o, Kind)
              ELSE IF TempOf(o, Kind) = {} THEN MakeTemp(o, Kind)
              ELSE IF \E x \in TempOf(o, Kind) : ~x.full THEN FillTemp(o, Kind) ELSE Publish(o, Kind)
        \/ /\ OnDisk(o) /\ HasData(o) /\ Prepares(o) /\ X # {}
           /\ Remove(o, CHOOSE x \in X : TRUE)
        \/ Ready(o)
  ELSE LastUse(1) \/ Ret(1)
Rest == Tasks = {} /\ thr[1].pc = "idle"
\* what decides the further behaviour at rest
At == <<[i \in DOMAIN mgr[1].lru |-> objs[mgr[1].lru[i]].ep], IF mgr[1].fut = 0 THEN -1 ELSE objs[mgr[1].fut].ep>>
Stored == {x \in DOMAIN file : file[x] # None}
Here == ToString(<<At, Stored>>)
What == IF Rest THEN <<At, Stored, << >>, 0, 0, 0>> ELSE <<At, Stored, objs, thr, temp, from>>
Ask == Rest /\ \E e \in 0..MaxEpoch : Want(1, 1, e) /\ from' = <<Here, e>>
\* the last step of a request: the edge is known
Go == ~Rest /\ Work /\ UNCHANGED from /\ (Rest' => PrintT(<<"EDGE", from[1], from[2], Here'>>))
Next == Ask \/ Go
Spec == Init /\ [][Next]_<<dvars, from>>
=============================================================================
