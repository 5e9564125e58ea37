------------------------------ MODULE Equihash -----------------------------
(* Equihash verification, stated over the whole tree at once.  A solution  *)
(* is a byte string holding 2^k indices of c+1 bits, c = n/(k+1).          *)
EXTENDS Blake2b, FiniteSets

Pow2(n) == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,131072,262144,524288,
             1048576,2097152,4194304,8388608,16777216,33554432,67108864>>[n + 1]
CollisionBits(n, k) == n \div (k + 1)
SolutionBytes(n, k) == (Pow2(k) * (CollisionBits(n, k) + 1)) \div 8

\* bit number i (0-based, most significant first) of a byte string
BitBE(b, i) == (b[(i \div 8) + 1] \div Pow2(7 - (i % 8))) % 2
\* the number formed by `len' bits from bit o on
BitsBE(b, o, len) == FoldLeft(LAMBDA v, i : (2 * v) + BitBE(b, o + i), 0, [i \in 1..len |-> i - 1])
Indices(n, k, soln) ==
  LET w == CollisionBits(n, k) + 1 IN TLCEval([i \in 1..Pow2(k) |-> BitsBE(soln, w * (i - 1), w)])

PersonalOf(person, n, k) == person \o BytesLE(W32(n)) \o BytesLE(W32(k))
\* hash number g holds 512 div n strings of n bits
PerHash(n) == 512 \div n
StringBytes(n) == (n + 7) \div 8
PlainHash(n, k, person, header, g) ==
  Blake2b(header \o BytesLE(W32(g)), PersonalOf(person, n, k), PerHash(n) * StringBytes(n))
\* the twisted variant: 32-bit-wise sum of the hashes of the sixteen-block up
\* to g, with the three lowest bits of every sixteenth byte cleared
TwistHash(n, k, person, header, g) ==
  LET first == g - (g % 16)
      add(acc, i) == LET w == WordsLE(PlainHash(n, k, person, header, first + i), 2)
                     IN  TLCEval([j \in 1..16 |-> AddW(acc[j], w[j])])
      s == BytesOfLE(TLCEval(FoldLeft(add, TLCEval([j \in 1..16 |-> Zero(2)]), [i \in 1..((g % 16) + 1) |-> i - 1])))
  IN  TLCEval([j \in 1..Len(s) |-> IF j % 16 = 0 THEN s[j] - (s[j] % 8) ELSE s[j]])
HashOf(n, k, person, header, twist, g) ==
  IF twist THEN TwistHash(n, k, person, header, g) ELSE PlainHash(n, k, person, header, g)
\* the k+1 collision groups of index i
Groups(n, k, person, header, twist, i) ==
  LET h == TLCEval(HashOf(n, k, person, header, twist, i \div PerHash(n)))
      s == TLCEval(Slice(h, (i % PerHash(n)) * StringBytes(n), StringBytes(n)))
      c == CollisionBits(n, k)
  IN  TLCEval([l \in 1..(k + 1) |-> BitsBE(s, c * (l - 1), c)])

XorAll(G, l, o, len) == FoldLeft(LAMBDA a, i : a ^^ G[o + i][l], 0, [i \in 1..len |-> i])

(* conditions on an index list ix with groups G *)
Collides(G, k) ==         \* level l: subtrees of 2^l leaves cancel on group l
  /\ \A l \in 1..k : \A b \in 0..(Pow2(k - l) - 1) : XorAll(G, l, b * Pow2(l), Pow2(l)) = 0
  /\ XorAll(G, k + 1, 0, Pow2(k)) = 0
Ordered(ix, k) ==         \* the left subtree starts with the smaller index
  \A l \in 1..k : \A b \in 0..(Pow2(k - l) - 1) :
     ix[(b * Pow2(l)) + 1] < ix[(b * Pow2(l)) + Pow2(l - 1) + 1]
Distinct(ix) == Cardinality({ix[i] : i \in 1..Len(ix)}) = Len(ix)

Valid(n, k, person, twist, header, soln) ==
  /\ Len(soln) = SolutionBytes(n, k)
  /\ LET ix == Indices(n, k, soln)
     IN  /\ Distinct(ix)
         /\ Ordered(ix, k)
         /\ Collides(TLCEval([i \in 1..Len(ix) |-> Groups(n, k, person, header, twist, ix[i])]), k)
=============================================================================
