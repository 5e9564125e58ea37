------------------------------- MODULE Agree4 ------------------------------
EXTENDS Eaglesong
VARIABLE x
Init == x = 0
Next == x' = x
P(name, v) == PrintT(<<"AGREE", name, v>>)
Wd(s, j) == << ((s * 7919) + (j * j * 257) + (j * 31)) % 65536, ((s * s * 1237) + (j * 40503)) % 65536 >>
St(s) == [j \in 1..16 |-> CASE s = 0 -> Zero(2) [] s = 1 -> <<65535, 65535>> [] OTHER -> Wd(s, j)]
ASSUME P("permute", [s \in 1..12 |-> Permute(St(s - 1))])
ASSUME P("permutefew", [s \in 1..6 |-> PermuteWith(St(s), [i \in 1..(16 * (s - 1)) |-> Wd(s, i)])])
=============================================================================
