----------------------------- MODULE HeavyHash -----------------------------
(* kHeavyHash of Kaspa.                                                    *)
EXTENDS Keccak, Prims

Dim == 64
ProofOfWorkHash == <<80,114,111,111,102,79,102,87,111,114,107,72,97,115,104>>
HeavyHashName == <<72,101,97,118,121,72,97,115,104>>

Nibble(w, k) == (w[(k \div 4) + 1] \div (<<1,16,256,4096>>[(k % 4) + 1])) % 16
(* the next candidate matrix from the generator state: <<matrix, state>> *)
DrawMatrix(st) ==
  LET step(acc, i) == LET x == TLCEval(XoNext(acc[1])) IN <<x[2], Append(acc[2], x[1])>>
      d == TLCEval(FoldLeft(step, <<st, << >>>>, [i \in 1..256 |-> i]))
  IN  << TLCEval([r \in 1..Dim |-> [c \in 1..Dim |-> Nibble(d[2][(4 * (r - 1)) + ((c - 1) \div 16) + 1], (c - 1) % 16)]]), d[1] >>

(* rank modulo a prime p below 2^15, by Gauss-Jordan elimination *)
RECURSIVE PowP(_, _, _)
PowP(a, n, p) == IF n = 0 THEN 1
                 ELSE LET h == TLCEval(PowP((a * a) % p, n \div 2, p)) IN IF n % 2 = 1 THEN (h * a) % p ELSE h
RankMod(mat, p) ==
  LET n == Len(mat)
      col(acc, c) ==
        LET cand == {r \in 1..n : r \notin acc.used /\ acc.m[r][c] # 0}
        IN  IF cand = {} THEN acc
            ELSE LET j == CHOOSE r \in cand : \A q \in cand : r <= q
                     inv == TLCEval(PowP(acc.m[j][c], p - 2, p))
                     piv == TLCEval([x \in 1..n |-> (acc.m[j][x] * inv) % p])
                 IN  [used |-> acc.used \cup {j},
                      m |-> TLCEval([r \in 1..n |->
                              IF r = j \/ acc.m[r][c] = 0 THEN acc.m[r]
                              ELSE LET f == p - acc.m[r][c] IN [x \in 1..n |-> (acc.m[r][x] + (f * piv[x])) % p]])]
      fin == TLCEval(FoldLeft(col, [used |-> {}, m |-> TLCEval([r \in 1..n |-> [x \in 1..n |-> mat[r][x] % p]])], [c \in 1..n |-> c]))
  IN  Cardinality(fin.used)
(* full rank over the rationals: the determinant is non-zero.  A full rank *)
(* modulo any prime shows it; a non-zero determinant divisible by all six  *)
(* primes at once is ignored.                                              *)
Primes == <<32749, 32719, 32717, 32713, 32707, 32693>>
FullRank(mat) == \E i \in 1..Len(Primes) : RankMod(mat, Primes[i]) = Dim
RECURSIVE FirstFull(_)
FirstFull(st) == LET d == TLCEval(DrawMatrix(st)) IN IF FullRank(d[1]) THEN d[1] ELSE FirstFull(d[2])
\* how many candidates are rejected before the first full-rank one
RECURSIVE Redraws(_)
Redraws(st) == LET d == TLCEval(DrawMatrix(st)) IN IF FullRank(d[1]) THEN 0 ELSE 1 + Redraws(d[2])

\* timestamp and nonce: 64-bit words
Header(hash, timestamp, nonce) == hash \o BytesLE(timestamp) \o Zero(32) \o BytesLE(nonce)
Heavy(mat, h) ==
  LET v == TLCEval([i \in 1..Dim |-> IF i % 2 = 1 THEN h[(i + 1) \div 2] \div 16 ELSE h[i \div 2] % 16])
      p == TLCEval([i \in 1..Dim |-> FoldLeft(LAMBDA s, j : s + (mat[i][j] * v[j]), 0, [j \in 1..Dim |-> j]) \div 1024])
  IN  TLCEval([i \in 1..32 |-> h[i] ^^ ((16 * p[(2 * i) - 1]) + p[2 * i])])
(* refused when no full-rank matrix exists: the all-zero generator state *)
Refused(hash) == \A i \in 1..32 : hash[i] = 0
HeavyOf(mat, hash, timestamp, nonce) ==
  LET h == TLCEval(CShake256(Header(hash, timestamp, nonce), ProofOfWorkHash, 32))
  IN  Reverse8(CShake256(Heavy(mat, h), HeavyHashName, 32))
HeavyHash(hash, timestamp, nonce) == HeavyOf(TLCEval(FirstFull(WordsLE(hash, 4))), hash, timestamp, nonce)
\* the same with given numbers for the generator's
MatrixOf(words, c) == TLCEval([r \in 1..Dim |-> [x \in 1..Dim |-> Nibble(words[(256 * c) + (4 * (r - 1)) + ((x - 1) \div 16) + 1], (x - 1) % 16)]])
RECURSIVE FirstFullOf(_, _)
FirstFullOf(words, c) == LET m == MatrixOf(words, c) IN IF FullRank(m) THEN m ELSE FirstFullOf(words, c + 1)
HeavyDrawn(words, hash, timestamp, nonce) == HeavyOf(TLCEval(FirstFullOf(words, 0)), hash, timestamp, nonce)
=============================================================================
