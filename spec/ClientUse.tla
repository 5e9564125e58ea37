----------------------------- MODULE ClientUse ------------------------------
(* Using clients one call after the other.  A call is identified by the     *)
(* client's kind and the content of its arguments; its answer is a function *)
(* of that.  The caller owns the arguments and the results: it may change   *)
(* them between calls without any consequence, and calls do not change      *)
(* them.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  alg,      \* kind of the clients
  known,    \* [call -> its answer]
  kept      \* calls whose results the caller keeps unchanged
uvars == <<alg, known, kept>>

\* the lengths each kind of client admits: buffers first, then edges (for
\* Equihash the solution's length follows from the parameters)
HashKinds == {"ethash", "kawpow", "firopow", "octopus", "heavyhash", "autolykos2"}
SolutionLength == [zcash |-> 1344, zclassic |-> 400, bitcoingold |-> 100, aion |-> 1408, flux |-> 52]
Admits(a, lens) ==
  CASE a \in HashKinds -> lens[1] = 32
    [] a = "beamhashiii" -> lens[1] = 40 /\ lens[2] = 104
    [] a \in {"aeternity", "cortex"} -> lens[2] = 42
    [] a \in DOMAIN SolutionLength -> lens[2] = SolutionLength[a]
    [] a = "eaglesong" -> TRUE
IsHash(a) == a \in HashKinds \cup {"eaglesong"}
Refusal(ans) == ans.err /\ ~ans.yes /\ \A i \in DOMAIN ans.outs : Len(ans.outs[i]) = 0
Digest(ans) == ~ans.err /\ \A i \in DOMAIN ans.outs : Len(ans.outs[i]) = 32
\* what an answer has to look like
Proper(a, lens, zero, ans) ==
  IF ~Admits(a, lens) THEN Refusal(ans)
  ELSE IF a = "heavyhash" /\ zero THEN Refusal(ans)   \* no full rank matrix exists
  ELSE IF IsHash(a) THEN Digest(ans)
  ELSE ans.yes => ~ans.err

UseInit(a) == alg = a /\ known = << >> /\ kept = {}
Answered(c, ans) == IF c \in DOMAIN known THEN known[c] = ans ELSE TRUE
Use(c, lens, zero, ans) ==
  /\ Proper(alg, lens, zero, ans) /\ Answered(c, ans)
  /\ known' = [x \in DOMAIN known \cup {c} |-> IF x = c THEN ans ELSE known[x]]
  /\ UNCHANGED <<alg, kept>>
\* the result is looked at after the arguments have been overwritten
Again(c, ans) == c \in DOMAIN known /\ known[c] = ans /\ UNCHANGED uvars
=============================================================================
