------------------------------- MODULE Agree3 ------------------------------
EXTENDS Equihash
VARIABLE x
Init == x = 0
Next == x' = x
P(name, v) == PrintT(<<"AGREE", name, v>>)
Byt(s, n) == [i \in 1..n |-> ((i * i * 73) + (i * s * 31) + s) % 256]
ASSUME P("bits", {<<o, l, BitsBE(Byt(s, 12), o, l)>> : s \in 1..3, o \in {0, 1, 7, 8, 13, 40, 66}, l \in {1, 7, 8, 9, 20, 24, 26}})
=============================================================================
