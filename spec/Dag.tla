-------------------------------- MODULE Dag --------------------------------
(* Epochs, seeds, sizes, verification cache, dataset items, L1 cache of    *)
(* the Ethash family.                                                      *)
EXTENDS Keccak, Prims, Integers

LOCAL B31 == 2147483647

(* seeds *)
KeccakIter(n) == FoldLeft(LAMBDA s, i : TLCEval(Keccak256(s)), Zero(32), [i \in 1..n |-> i])

(* sizes: in rows of `unit' bytes.  init and growth are in rows as well.   *)
(* The size of an epoch is the largest prime number of rows reachable from *)
(* init + growth * epoch - 1 in steps of two rows.                         *)
RECURSIVE HasDivisor(_, _)
HasDivisor(n, d) == IF d * d > n THEN FALSE ELSE IF n % d = 0 THEN TRUE ELSE HasDivisor(n, d + 2)
IsPrime(n) == n >= 2 /\ (n = 2 \/ (n % 2 = 1 /\ ~HasDivisor(n, 3)))
RECURSIVE PrimeDown(_)
PrimeDown(n) == IF IsPrime(n) THEN n ELSE PrimeDown(n - 2)
Rows(init, growth, epoch) == PrimeDown(init + (growth * epoch) - 1)

(* The same for numbers of rows that exceed an integer of TLC: words of 64 *)
(* bits.  A number below 2^64 is prime iff it is a strong probable prime   *)
(* to the first twelve primes (Sorenson and Webster, 2015).                *)
RECURSIVE RemFrom(_, _, _, _)
RemFrom(a, m, i, r) ==      \* i: next bit of a, from the top; r: the remainder so far
  IF i < 0 THEN r
  ELSE LET d == TLCEval(AddW(AddW(r, r), [k \in 1..Len(r) |-> IF k = 1 THEN BitOf(a, i) ELSE 0]))
       IN  RemFrom(a, m, i - 1, TLCEval(IF LtW(d, m) THEN d ELSE SubW(d, m)))
TopBit(a) == (16 * Len(a)) - 1 - Clz(a)
RemW(a, m) == LowLimbs(RemFrom(a, Widen(m, Len(m) + 1), TopBit(a), Zero(Len(m) + 1)), Len(m))
MulModW(a, b, m) == RemW(MulW(Widen(a, 8), Widen(b, 8)), m)
RECURSIVE PowFrom(_, _, _, _, _)
PowFrom(b, e, m, i, r) ==
  IF i < 0 THEN r
  ELSE LET q == TLCEval(MulModW(r, r, m))
       IN  PowFrom(b, e, m, i - 1, TLCEval(IF BitOf(e, i) = 1 THEN MulModW(q, b, m) ELSE q))
PowModW(b, e, m) == PowFrom(b, e, m, TopBit(e), W64(1))
RECURSIVE SquaresMeet(_, _, _, _)
SquaresMeet(x, goal, m, k) == k > 0 /\ (x = goal \/ SquaresMeet(TLCEval(MulModW(x, x, m)), goal, m, k - 1))
StrongPrime(n, b) ==
  LET n1 == SubW(n, W64(1))
      s  == CHOOSE k \in 1..63 : BitOf(n1, k) = 1 /\ \A j \in 0..(k - 1) : BitOf(n1, j) = 0
      x  == TLCEval(PowModW(W64(b), ShrW(n1, s), n))
  IN  x = W64(1) \/ SquaresMeet(x, n1, n, s)
Witnesses == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37>>
IsPrimeW(n) ==
  IF LtW(n, W64(B31)) THEN IsPrime(ToInt(n))
  ELSE BitOf(n, 0) = 1 /\ \A i \in 1..12 : StrongPrime(n, Witnesses[i])
RECURSIVE PrimeDownW(_)
PrimeDownW(n) == IF IsPrimeW(n) THEN n ELSE PrimeDownW(TLCEval(SubW(n, W64(2))))
RowsW(init, growth, epoch) == PrimeDownW(SubW(AddW(init, MulW(growth, epoch)), W64(1)))

(* verification cache: a sequence of 64-byte rows *)
InitialRows(seed, rows) ==
  FoldLeft(LAMBDA rs, i : Append(rs, TLCEval(Keccak512(rs[Len(rs)]))), <<Keccak512(seed)>>, [i \in 1..(rows - 1) |-> i])
MixRow(rs, j) ==       \* j: 0-based row
  LET n == Len(rs)
      src == rs[((j + n - 1) % n) + 1]
      sel == rs[ModW(LE(rs[j + 1], 0, 2), n) + 1]
  IN  TLCEval([rs EXCEPT ![j + 1] = Keccak512(XorBytes(src, sel))])
MemoPass(rs) == FoldLeft(LAMBDA s, j : MixRow(s, j - 1), rs, [j \in 1..Len(rs) |-> j])
CacheRows(seed, rows, rounds) ==
  FoldLeft(LAMBDA s, r : TLCEval(MemoPass(s)), TLCEval(InitialRows(seed, rows)), [r \in 1..rounds |-> r])
\* the same as a sequence of rows of sixteen 32-bit words
CacheWords(seed, rows, rounds) ==
  LET rs == TLCEval(CacheRows(seed, rows, rounds)) IN TLCEval([i \in 1..rows |-> WordsLE(rs[i], 2)])

(* dataset item number idx (a 32-bit word): sixteen words *)
ItemMix(cache, idx, parents) ==
  LET n == Len(cache)
      r0 == cache[ModW(idx, n) + 1]
      m0 == WordsLE(Keccak512(BytesOfLE(TLCEval([r0 EXCEPT ![1] = XorW(r0[1], idx)]))), 2)
      step(m, i) == LET p == ModW(Fnv1(XorW(idx, W32(i)), m[(i % 16) + 1]), n) IN FnvHash(m, cache[p + 1])
  IN  FoldLeft(step, TLCEval(m0), [i \in 1..parents |-> i - 1])
DatasetItem(cache, idx, parents) == TLCEval(WordsLE(Keccak512(BytesOfLE(TLCEval(ItemMix(cache, idx, parents)))), 2))

(* A dataset is determined by the seed, the number of cache rows, the      *)
(* number of cache rounds and the number of parents of an item:            *)
(* ds = [seed, rows, rounds, parents].                                     *)
DsCache(ds) == CacheWords(ds.seed, ds.rows, ds.rounds)
Item(ds, idx) == DatasetItem(DsCache(ds), idx, ds.parents)
\* wide item: width consecutive items
WideItem(ds, idx, width) ==
  FlattenSeq(TLCEval([k \in 1..width |-> Item(ds, AddW(MulW(idx, W32(width)), W32(k - 1)))]))
\* L1: the first `words' words of the dataset
L1Words(ds, words) == FlattenSeq(TLCEval([k \in 1..(words \div 16) |-> Item(ds, W32(k - 1))]))
=============================================================================
