------------------------------- MODULE Agree -------------------------------
(* Values of the operators that have a Java twin, on pseudo-random and     *)
(* boundary arguments.  tools/agree.py runs this module with and without   *)
(* the twins on TLC's class path and compares what is printed.             *)
EXTENDS Ethash, Blake2b

VARIABLE x
Init == x = 0
Next == x' = x

\* a small generator of limbs (the low bits of an LCG, 15-bit multiplier)
Lcg(s) == ((s * 20021) + 12345) % 65536
RECURSIVE Limbs(_, _)
Limbs(s, n) == IF n = 0 THEN << >> ELSE LET t == Lcg(s) IN <<(t * 7 + (t \div 256)) % 65536>> \o Limbs(t, n - 1)
Byt(s, n) == LET l == Limbs(s, n) IN [i \in 1..n |-> l[i] \div 256]
Edge(n) == {Zero(n), [i \in 1..n |-> 65535], [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0],
            [i \in 1..n |-> IF i = n THEN 32768 ELSE 0], [i \in 1..n |-> IF i = n THEN 0 ELSE 65535]}
W(n) == Edge(n) \cup {Limbs(s, n) : s \in 1..6}
P(name, v) == PrintT(<<"AGREE", name, v>>)
Bin(n) == {<<AddW(a, b), SubW(a, b), MulW(a, b), XorW(a, b), AndW(a, b), OrW(a, b), LtW(a, b)>> : a \in W(n), b \in W(n)}
Un(n) == {<<NotW(a), PopCount(a), Clz(a), BytesLE(a), BytesBE(a), ModW(a, 7), ModW(a, 1032193), ModW(a, 2147483647),
            DivSmall(a, 3), DivSmall(a, 10)>> : a \in W(n)}
Sh(n) == {<<RotlW(a, s), RotrW(a, s), ShlW(a, s), ShrW(a, s)>> : a \in W(n), s \in {0, 1, 7, 15, 16, 17, (16 * n) - 1}}

ASSUME P("bin2", Bin(2)) /\ P("bin4", Bin(4)) /\ P("bin16", Bin(16))
ASSUME P("un2", Un(2)) /\ P("un4", Un(4)) /\ P("un16", Un(16))
ASSUME P("sh2", Sh(2)) /\ P("sh4", Sh(4)) /\ P("sh32", {ShlW(Limbs(3, 32), s) : s \in {0, 5, 16, 288, 511}})
ASSUME P("bytes", <<LE(Byt(5, 16), 3, 4), BE(Byt(5, 16), 3, 4), WordsLE(Byt(9, 24), 2), WordsBE(Byt(9, 24), 4), PadTo(Byt(9, 5), 8),
                    BytesOfLE(WordsLE(Byt(9, 24), 4)), XorBytes(Byt(1, 9), Byt(2, 7)), Reverse8(Byt(1, 9)), PadTo(Byt(9, 5), 3)>>)
ASSUME P("f1600", KeccakF1600([i \in 1..25 |-> Limbs(i, 4)])) /\ P("f800", KeccakF800([i \in 1..25 |-> Limbs(i, 2)]))
ASSUME P("sponge", <<Keccak256(<< >>), Keccak256(Byt(3, 135)), Keccak256(Byt(3, 136)), Keccak512(Byt(4, 71)), Keccak512(Byt(4, 72)),
                     Shake256(Byt(5, 9), 300), CShake256(Byt(5, 9), Byt(6, 11), 32)>>)
ASSUME P("blake", <<Blake2b(<< >>, << >>, 32), Blake2b(Byt(1, 127), Byt(2, 16), 50), Blake2b(Byt(1, 128), Byt(2, 7), 64), Blake2b256(Byt(1, 129))>>)
ASSUME P("fnv", FnvHash(WordsLE(Byt(1, 64), 2), WordsLE(Byt(2, 64), 2)))
Keys == WordsLE(Byt(8, 32), 4)
ASSUME P("sip", <<SipRound(Keys), Hash24(Keys, Limbs(1, 4)), Hash48(Keys, Limbs(2, 4)), SipBlock48(Keys, Limbs(3, 4)),
                  SipBlock48(Keys, [Limbs(3, 4) EXCEPT ![1] = 65535])>>)
ASSUME P("xo", <<XoNext(Keys), XoNext(XoNext(Keys)[2])>>) /\ P("kiss", KissNext(WordsLE(Byt(8, 16), 2)))
ASSUME P("iter", <<KeccakIter(0), KeccakIter(1), KeccakIter(3)>>)
ASSUME P("prime", {PrimeDown(n) : n \in {3, 9, 25, 27, 121, 123, 262143, 9999991, 1000001}})
ASSUME P("cache", CacheWords(Byt(3, 32), 5, 2))
Ds == [seed |-> Byt(3, 32), rows |-> 3, rounds |-> 1, parents |-> 5]
ASSUME P("item", <<Item(Ds, Limbs(3, 2)), L1Words(Ds, 32)>>)
=============================================================================
