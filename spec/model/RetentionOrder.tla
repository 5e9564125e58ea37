--------------------------- MODULE RetentionOrder ---------------------------
(* Retention with the times of the last requests: what is dropped has been   *)
(* requested before everything that stays.                                   *)
EXTENDS Retention
VARIABLES
  \* @type: Int;
  clock,
  \* @type: Seq(Int);
  at,        \* when the retained epochs were requested last
  \* @type: Int;
  dropped    \* no epoch that is not retained has been requested after that
OInit == RInit /\ clock = 0 /\ at = << >> /\ dropped = 0
OAgain(e) == /\ Again(e) /\ \E i \in Hit(e) : at' = Append(Drop1(at, i), clock + 1)
             /\ UNCHANGED dropped
OFresh(e) == /\ Fresh(e)
             /\ IF Len(lru) >= N THEN at' = Append(Tail(at), clock + 1) /\ dropped' = at[1]
                ELSE at' = Append(at, clock + 1) /\ UNCHANGED dropped
ONext == \E e \in Nat : (OAgain(e) \/ OFresh(e)) /\ clock' = clock + 1
Recent == /\ Len(at) = Len(lru) /\ dropped >= 0 /\ dropped <= clock
          /\ \A i \in DOMAIN at : at[i] > dropped /\ at[i] <= clock
          /\ \A i, j \in DOMAIN at : i < j => at[i] < at[j]
OInv == Inv /\ Recent
=============================================================================
