------------------------------- MODULE Agree2 ------------------------------
EXTENDS Octopus, HeavyHash
VARIABLE x
Init == x = 0
Next == x' = x
P(name, v) == PrintT(<<"AGREE", name, v>>)
R(i) == ((i * 7919) + ((i * i) % 10007) * 101) % M
ASSUME P("mulmod", {MulMod(R(i), R(j)) : i \in 1..20, j \in 900..920} \cup {MulMod(M - 1, M - 1), MulMod(0, 5), MulMod(M - 1, 1)})
ASSUME P("poly", EvalPoly([i \in 1..1024 |-> R(i)], 31337))
Mt(n, s) == [r \in 1..n |-> [c \in 1..n |-> ((r * 31 + c * c * 17 + r * c * 5 + s) % 16)]]
ASSUME P("rank", {<<n, s, RankMod(Mt(n, s), 32749), RankMod(Mt(n, s), 32719)>> : n \in {1, 2, 3, 6, 9, 12}, s \in 0..4})
=============================================================================
