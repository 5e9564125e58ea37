----------------------------- MODULE CuckooWalk ----------------------------
(* The verification procedure of cuckoo.go and cuckaroo.go as a state      *)
(* machine, over every bipartite multigraph of L edges (up to the names of *)
(* the nodes): it stops, and accepts exactly the simple cycles.            *)
EXTENDS Cuckoo
CONSTANT L
VARIABLES ends, xorOk, i, j, k, n, pc
vars == <<ends, xorOk, i, j, k, n, pc>>

Rgs == {f \in [1..L -> 0..(L - 1)] : \A x \in 1..L : f[x] = 0 \/ \E y \in 1..(x - 1) : f[y] = f[x] - 1}
Uv(x) == ends[(x \div 2) + 1][(x % 2) + 1]
Flip(x) == IF x % 2 = 0 THEN x + 1 ELSE x - 1
Even(es) == \A s \in {1, 2} : \A x \in 1..L : Cardinality({y \in 1..L : es[y][s] = es[x][s]}) % 2 = 0

Init == /\ \E u \in Rgs, v \in Rgs : ends = [x \in 1..L |-> <<u[x], v[x]>>]
        \* the exclusive-or test passes for even degrees; otherwise it depends on the names
        /\ xorOk \in (IF Even(ends) THEN {TRUE} ELSE BOOLEAN)
        /\ i = 0 /\ j = 0 /\ k = 0 /\ n = 0 /\ pc = "xor"
XorTest == pc = "xor" /\ pc' = (IF xorOk THEN "outer" ELSE "invalid") /\ UNCHANGED <<ends, xorOk, i, j, k, n>>
Outer == pc = "outer" /\ pc' = "inner" /\ j' = i /\ k' = i /\ UNCHANGED <<ends, xorOk, i, n>>
Inner == /\ pc = "inner"
         /\ k' = (k + 2) % (2 * L)
         /\ IF k' = i THEN pc' = "matched" /\ j' = j
            ELSE IF Uv(k') # Uv(i) THEN pc' = pc /\ j' = j
            ELSE IF j # i THEN pc' = "invalid" /\ j' = j            \* branch
            ELSE pc' = pc /\ j' = k'
         /\ UNCHANGED <<ends, xorOk, i, n>>
Follow == /\ pc = "matched"
          /\ IF j = i THEN pc' = "invalid" /\ UNCHANGED <<i, n>>    \* dead end
             ELSE i' = Flip(j) /\ n' = n + 1 /\ pc' = (IF i' = 0 THEN "count" ELSE "outer")
          /\ UNCHANGED <<ends, xorOk, j, k>>
Count == pc = "count" /\ pc' = (IF n = L THEN "valid" ELSE "invalid") /\ UNCHANGED <<ends, xorOk, i, j, k, n>>
Next == XorTest \/ Outer \/ Inner \/ Follow \/ Count
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc \in {"valid", "invalid"}
AcceptsExactlyCycles == Done => (pc = "valid" <=> SimpleCycle(ends))
Bounded == n <= L
Stops == <>Done
=============================================================================
