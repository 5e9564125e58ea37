------------------------------- MODULE Keccak ------------------------------
(* Keccak-f[1600], Keccak-f[800] and the sponges built on them (FIPS 202,  *)
(* legacy Keccak padding and cSHAKE of SP 800-185).                        *)
EXTENDS Words, SequencesExt

RhoOffset == << 0, 1, 62, 28, 27,  36, 44, 6, 55, 20,  3, 10, 43, 25, 39,
               41, 45, 15, 21, 8,  18, 2, 61, 56, 14 >>

RC64 == << <<1,0,0,0>>, <<32898,0,0,0>>, <<32906,0,0,32768>>, <<32768,32768,0,32768>>,
  <<32907,0,0,0>>, <<1,32768,0,0>>, <<32897,32768,0,32768>>, <<32777,0,0,32768>>,
  <<138,0,0,0>>, <<136,0,0,0>>, <<32777,32768,0,0>>, <<10,32768,0,0>>,
  <<32907,32768,0,0>>, <<139,0,0,32768>>, <<32905,0,0,32768>>, <<32771,0,0,32768>>,
  <<32770,0,0,32768>>, <<128,0,0,32768>>, <<32778,0,0,0>>, <<10,32768,0,32768>>,
  <<32897,32768,0,32768>>, <<32896,0,0,32768>>, <<1,32768,0,0>>, <<32776,32768,0,32768>> >>

Lane(x, y) == (5 * y) + x + 1

\* one round on 25 lanes of n limbs
KRound(A, rc) ==
  LET n == Len(A[1])
      C == TLCEval([x \in 0..4 |-> XorW(XorW(XorW(A[Lane(x,0)], A[Lane(x,1)]), XorW(A[Lane(x,2)], A[Lane(x,3)])), A[Lane(x,4)])])
      D == TLCEval([x \in 0..4 |-> XorW(C[(x + 4) % 5], RotlW(C[(x + 1) % 5], 1))])
      T == TLCEval([i \in 1..25 |-> RotlW(XorW(A[i], D[(i - 1) % 5]), RhoOffset[i] % (16 * n))])
      \* pi: B[y, 2x+3y] = T[x, y]
      B == TLCEval([i \in 1..25 |-> LET x == (i - 1) % 5 y == (i - 1) \div 5
                            IN  T[Lane((x + (3 * y)) % 5, x)]])
      X == TLCEval([i \in 1..25 |-> LET x == (i - 1) % 5 y == (i - 1) \div 5
                            IN  XorW(B[i], AndW(NotW(B[Lane((x + 1) % 5, y)]), B[Lane((x + 2) % 5, y)]))])
  IN  TLCEval([X EXCEPT ![1] = XorW(X[1], LowLimbs(rc, n))])

KeccakF1600(A) == FoldLeft(LAMBDA s, r : KRound(s, RC64[r]), A, [r \in 1..24 |-> r])
KeccakF800(A)  == FoldLeft(LAMBDA s, r : KRound(s, RC64[r]), A, [r \in 1..22 |-> r])

(* sponge over bytes: rate in bytes, domain padding byte, output length *)
PadKeccak(m, rate, dom) ==
  LET q == rate - (Len(m) % rate)
  IN  [i \in 1..(Len(m) + q) |->
         IF i <= Len(m) THEN m[i]
         ELSE (IF i = Len(m) + 1 THEN dom ELSE 0) + (IF i = Len(m) + q THEN 128 ELSE 0)]
Absorb(A, blk) ==
  LET k == Len(blk) \div 8
  IN  KeccakF1600(TLCEval([i \in 1..25 |-> IF i <= k THEN XorW(A[i], LE(blk, 8 * (i - 1), 4)) ELSE A[i]]))
\* squeeze `out' bytes, permuting between output blocks
RECURSIVE Squeeze(_, _, _)
Squeeze(A, rate, out) ==
  LET o == BytesOfLE(TLCEval(A))
  IN  IF out <= rate THEN SubSeq(o, 1, out) ELSE SubSeq(o, 1, rate) \o Squeeze(KeccakF1600(A), rate, out - rate)
Sponge(m, rate, dom, out) ==
  LET p == TLCEval(PadKeccak(m, rate, dom))
      A == TLCEval(FoldLeft(LAMBDA s, b : Absorb(s, Slice(p, b * rate, rate)),
                    TLCEval([i \in 1..25 |-> Zero(4)]), [b \in 1..(Len(p) \div rate) |-> b - 1]))
  IN  Squeeze(A, rate, out)

Keccak256(m) == Sponge(m, 136, 1, 32)
Keccak512(m) == Sponge(m, 72, 1, 64)

Shake256(m, out) == Sponge(m, 136, 31, out)
\* cSHAKE256 with empty function name and customisation string s of fewer
\* than 2^13 bytes; with an empty one it is SHAKE256
LeftEncode(n) == IF n < 256 THEN <<1, n>> ELSE <<2, n \div 256, n % 256>>
CShake256(m, s, out) ==
  IF s = << >> THEN Shake256(m, out)
  ELSE LET hdr == LeftEncode(136) \o LeftEncode(0) \o LeftEncode(8 * Len(s)) \o s
       IN  Sponge(PadTo(hdr, 136 * ((Len(hdr) + 135) \div 136)) \o m, 136, 4, out)
=============================================================================
