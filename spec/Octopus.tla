------------------------------ MODULE Octopus ------------------------------
(* Conflux's Octopus.  Residues modulo M are plain integers.               *)
EXTENDS Dag

M == 1032193              \* prime, M - 1 = 2^14 * 63
B == 11
Warp == 32
Points == 32              \* data per thread
Coefs == 1024
Accesses == 32

\* a * b modulo M, within 31-bit arithmetic (a < 2^20)
MulMod(a, b) == (((((a * (b \div 1024)) % M) * 1024) % M) + ((a * (b % 1024)) % M)) % M
RECURSIVE PowMod(_, _)
PowMod(a, n) == IF n = 0 THEN 1
                ELSE LET h == TLCEval(PowMod(MulMod(a, a), n \div 2)) IN IF n % 2 = 1 THEN MulMod(h, a) ELSE h
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Strip(_)
Strip(e) == LET g == Gcd(e, M - 1) IN IF g = 1 THEN e ELSE Strip(e \div g)
\* a 64-bit word to a primitive root
Remap(w) == PowMod(B, Strip(ModW(w, M - 2) + 1))
\* a polynomial with a non-zero discriminant
RECURSIVE ComputeC(_, _, _)
ComputeC(a, b, h) ==
  LET c == TLCEval(Remap(h))
  IN  IF MulMod(b, b) # MulMod(4, MulMod(a, c)) THEN c ELSE ComputeC(a, b, TLCEval(AddW(h, W64(1))))

\* the 32 values thread t of the warp contributes
ThreadData(keys, warp, t) ==
  LET s0 == TLCEval(Hash24(keys, AddW(warp, W64(t))))
      step(acc, j) == LET s == TLCEval(SipRound(acc[1])) IN <<s, Append(acc[2], ModW(LowLimbs(XorLanes(s), 2), M))>>
  IN  FoldLeft(step, <<s0, << >>>>, [j \in 1..Points |-> j])[2]
Coefficients(keys, warp) ==         \* d[j*32 + t] = value j of thread t
  LET T == TLCEval([t \in 1..Warp |-> ThreadData(keys, warp, t - 1)])
  IN  TLCEval([k \in 1..Coefs |-> T[((k - 1) % Warp) + 1][((k - 1) \div Warp) + 1]])
EvalPoly(d, x) == FoldRight(LAMBDA c, acc : (MulMod(acc, x) + c) % M, d, 0)

Octopus(hash, nonce, rows256, ds) ==
  LET keys == TLCEval(WordsLE(hash, 4))
      a == TLCEval(Remap(keys[1]))
      b == TLCEval(Remap(keys[2]))
      c == TLCEval(ComputeC(a, b, keys[3]))
      w == TLCEval(Remap(keys[4]))
      r == nonce[1] % Warp
      warp == TLCEval([nonce EXCEPT ![1] = nonce[1] - r])
      d == Coefficients(keys, warp)
      X(i) == LET p == TLCEval(PowMod(w, r + (Warp * i)))
              IN  (MulMod(a, MulMod(p, p)) + MulMod(b, p) + c) % M
      pv == TLCEval([i \in 1..Points |-> EvalPoly(d, TLCEval(X(i - 1)))])
      result == TLCEval(FoldLeft(LAMBDA h, v : Fnv1L(h, W64(v)), Zero(4), pv))
      half == TLCEval(Keccak512(hash \o BytesLE(result)))
      h16 == TLCEval(WordsLE(half, 2))
      step(m, i) ==
        LET p == TLCEval(ModW(Fnv1(XorW(XorW(h16[1], W32(i)), W32(pv[i + 1])), m[(i % 64) + 1]), rows256))
        IN  FnvHash(m, TLCEval(WideItem(ds, W32(p), 4)))
      mix == TLCEval(FoldLeft(step, TLCEval(h16 \o h16 \o h16 \o h16), [i \in 1..Accesses |-> i - 1]))
      red(o) == Fnv1(Fnv1(Fnv1(mix[o + 1], mix[o + 2]), mix[o + 3]), mix[o + 4])
      cmix == BytesOfLE(TLCEval([i \in 1..8 |-> Fnv1(red(4 * (i - 1)), red(32 + (4 * (i - 1))))]))
  IN  Keccak256(half \o cmix)
=============================================================================
