---------------------------- MODULE Autolykos2 -----------------------------
(* Autolykos v2 of Ergo, for an element count k (1..32) and a base table   *)
(* size 2^n (n <= 26).                                                     *)
EXTENDS Blake2b

IncreaseStart == 614400
IncreasePeriod == 51200
HeightMax == 4198400

\* height is a 64-bit word
Capped(height) == IF height[3] = 0 /\ height[4] = 0 /\ height[2] < 65 /\ ToInt(height) < HeightMax
                  THEN ToInt(height) ELSE HeightMax
RECURSIVE Grow(_, _)
Grow(n, steps) == IF steps = 0 THEN n ELSE Grow((n \div 100) * 105, steps - 1)
TableSize(base, height) ==
  LET h == Capped(height)
  IN  IF h < IncreaseStart THEN base ELSE Grow(base, ((h - IncreaseStart) \div IncreasePeriod) + 1)

BE4(i) == BytesBE(W32(i))
\* the 8 KiB constant: the numbers 0..1023 as 64-bit big-endian words
MBytes == TLCEval([i \in 1..8192 |-> LET w == (i - 1) \div 8 b == (i - 1) % 8
                                     IN  IF b = 6 THEN w \div 256 ELSE IF b = 7 THEN w % 256 ELSE 0])
ElementHash(index, heightBytes) == Tail(Blake2b256(BE4(index) \o heightBytes \o MBytes))       \* 31 bytes
Indexes(seed, k, n) ==
  LET h == TLCEval(Blake2b256(seed))   e == h \o h
  IN  TLCEval([i \in 1..k |-> ModW(BE(e, i - 1, 2), n)])
\* 31-byte big-endian number as a 256-bit word
Wide31(b) == BE(<<0>> \o b, 0, 16)

Autolykos(k, base, msg, height, nonce) ==
  LET n == TableSize(base, height)
      hb == SubSeq(BytesBE(height), 5, 8)
      nb == BytesBE(nonce)
      mh == TLCEval(Blake2b256(msg \o nb))
      i == TLCEval(ModW(BE(mh, 24, 4), n))
      f == ElementHash(i, hb)
      ix == Indexes(f \o msg \o nb, k, n)
      sum == TLCEval(FoldLeft(LAMBDA s, x : AddW(s, Wide31(ElementHash(x, hb))), Zero(16), ix))
  IN  Blake2b256(BytesBE(sum))
=============================================================================
