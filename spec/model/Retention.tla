------------------------------ MODULE Retention ------------------------------
(* What a manager keeps, for histories of any length and any epochs: the    *)
(* retained objects, least recently used first, and the one prepared ahead. *)
(* DagManager refines it (checked by TLC, see MCManager); its invariant is  *)
(* inductive (checked by Apalache with unbounded epochs for every N up to   *)
(* the bound given to Gen).                                                 *)
EXTENDS Integers, Sequences
CONSTANT
  \* @type: Int;
  N
VARIABLES
  \* @type: Seq({ep: Int, id: Int});
  lru,
  \* @type: {ep: Int, id: Int};
  fut,
  \* @type: Int;
  top,
  \* @type: Int;
  made
rvars == <<lru, fut, top, made>>
Nobody == [ep |-> -1, id |-> 0]

RInit == lru = << >> /\ fut = Nobody /\ top = -1 /\ made = 0

Drop1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Hit(e) == {i \in DOMAIN lru : lru[i].ep = e}
Max2(a, b) == IF a > b THEN a ELSE b
Again(e) == /\ \E i \in Hit(e) : lru' = Append(Drop1(lru, i), lru[i])
            /\ UNCHANGED <<fut, top, made>>
Fresh(e) ==
  /\ Hit(e) = {}
  /\ LET kept == IF Len(lru) >= N THEN Tail(lru) ELSE lru
         reuse == fut.id # 0 /\ fut.ep = e
         it == IF reuse THEN fut ELSE [ep |-> e, id |-> made + 1]
         own == IF reuse THEN made ELSE made + 1
         ahead == e > top
     IN  /\ lru' = Append(kept, it)
         /\ fut' = IF ahead THEN [ep |-> e + 1, id |-> own + 1] ELSE fut
         /\ made' = IF ahead THEN own + 1 ELSE own
         /\ top' = Max2(top, e)
Request(e) == Again(e) \/ Fresh(e)
RNext == \E e \in Nat : Request(e)
\* a process that dies and is followed by another begins again
RSpec == RInit /\ [][RNext]_rvars

(* ------------------------------------------------ the inductive invariant *)
Bounded == Len(lru) <= N
Shared == \A i, j \in DOMAIN lru : i # j => lru[i].ep # lru[j].ep /\ lru[i].id # lru[j].id
Known == \A i \in DOMAIN lru : lru[i].ep >= 0 /\ lru[i].ep <= top /\ lru[i].id > 0 /\ lru[i].id <= made /\ lru[i].id # fut.id
NextPrepared == IF top < 0 THEN top = -1 /\ fut = Nobody /\ lru = << >> /\ made = 0
                ELSE fut.ep = top + 1 /\ fut.id > 0 /\ fut.id <= made
Inv == Bounded /\ Shared /\ Known /\ NextPrepared /\ made >= 0

(* -------------------------------- what follows for every single request *)
\* a look-ahead begins exactly when the highest epoch is raised, and never for
\* an epoch that has been prepared ahead before
OnlyAhead == /\ (fut' # fut) <=> (top' > top)
             /\ fut' # fut => fut'.ep > fut.ep /\ fut'.ep = top' + 1
\* what is retained or prepared ahead is used and no object made again for it
Used == \A i \in DOMAIN lru : \A j \in DOMAIN lru' : lru'[j].ep = lru[i].ep => lru'[j].id = lru[i].id
Consumed == fut.id # 0 => \A j \in DOMAIN lru' : lru'[j].ep = fut.ep => lru'[j].id = fut.id
Steps == OnlyAhead /\ Used /\ Consumed
=============================================================================
