--------------------------- MODULE RetentionProof ---------------------------
(* For Apalache: any state with the invariant, for up to 8 retained epochs,  *)
(* whatever the epochs and however long the history.                        *)
EXTENDS RetentionOrder, Apalache
OAny == /\ lru = Gen(8) /\ fut = Gen(1) /\ top = Gen(1) /\ made = Gen(1) /\ clock = Gen(1) /\ at = Gen(8) /\ dropped = Gen(1)
        /\ OInv
CInit == N \in 1..8
\* not an invariant: there are such states with everything in use
NeverFull == Len(lru) < 8 \/ dropped = 0
=============================================================================
