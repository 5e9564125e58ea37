------------------------------ MODULE DagWhere ------------------------------
(* How far can a recorded run be followed?                                  *)
EXTENDS DagTrace
Far == PrintT(<<"POS", pos>>)
=============================================================================
