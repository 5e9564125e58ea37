------------------------------- MODULE Prims -------------------------------
(* Small shared primitives: FNV, SipHash as used by Cuckoo, Octopus and    *)
(* BeamHash, xoshiro256++, KISS99.                                         *)
EXTENDS Words, SequencesExt

(* FNV *)
FnvPrime == W32(16777619)
Fnv1(u, v)   == XorW(MulW(u, FnvPrime), v)
Fnv1a(u, v)  == MulW(XorW(u, v), FnvPrime)
Fnv1L(u, v)  == XorW(MulW(u, W64(16777619)), v)               \* 64-bit
FnvHash(mix, data) == TLCEval([i \in 1..Len(mix) |-> Fnv1(mix[i], data[i])])
FnvOffset == <<40389, 33052>>                                 \* 0x811c9dc5

(* SipHash: state is a sequence of four 64-bit words *)
SipRound(v) ==
  LET a0 == TLCEval(AddW(v[1], v[2]))
      b0 == TLCEval(XorW(RotlW(v[2], 13), a0))
      a1 == TLCEval(RotlW(a0, 32))
      c0 == TLCEval(AddW(v[3], v[4]))
      d0 == TLCEval(XorW(RotlW(v[4], 16), c0))
      a2 == TLCEval(AddW(a1, d0))
      d1 == TLCEval(XorW(RotlW(d0, 21), a2))
      c1 == TLCEval(AddW(c0, b0))
      b1 == TLCEval(XorW(RotlW(b0, 17), c1))
  IN  <<a2, b1, RotlW(c1, 32), d1>>
Rounds(v, n) == FoldLeft(LAMBDA s, i : SipRound(s), v, [i \in 1..n |-> i])
SipHashState(v, nonce, c, d) ==
  LET x == TLCEval(Rounds(TLCEval([v EXCEPT ![4] = XorW(v[4], nonce)]), c))
  IN  TLCEval(Rounds(TLCEval([x EXCEPT ![1] = XorW(x[1], nonce), ![3] = XorW(x[3], W64(255))]), d))
Hash24(v, nonce) == SipHashState(v, nonce, 2, 4)
Hash48(v, nonce) == SipHashState(v, nonce, 4, 8)
XorLanes(v) == XorW(XorW(v[1], v[2]), XorW(v[3], v[4]))

SipNode(mask, keys, edge, uorv, legacy) ==
  LET n == AddW(AddW(edge, edge), uorv)
      h == TLCEval(XorLanes(Hash24(keys, n)))
  IN  AndW(IF legacy THEN RotlW(h, 17) ELSE h, mask)

\* Cuckaroo's SipHash-4-8 block of 64 consecutive edges, chained through one state
SipBlock48(keys, edge) ==
  LET first == TLCEval([edge EXCEPT ![1] = edge[1] - (edge[1] % 64)])
      step(acc, i) == LET s == TLCEval(Hash48(acc[1], AddW(first, W64(i)))) IN <<s, Append(acc[2], XorLanes(s))>>
      blk == TLCEval(FoldLeft(step, <<keys, << >>>>, [i \in 1..64 |-> i - 1])[2])
      k == edge[1] % 64
  IN  IF k = 63 THEN blk[64] ELSE XorW(blk[k + 1], blk[64])

(* xoshiro256++: state is a sequence of four 64-bit words *)
XoNext(s) ==
  LET r  == AddW(RotlW(AddW(s[1], s[4]), 23), s[1])
      t  == ShlW(s[2], 17)
      s2 == TLCEval(XorW(s[3], s[1]))
      s3 == TLCEval(XorW(s[4], s[2]))
      s1 == TLCEval(XorW(s[2], s2))
      s0 == TLCEval(XorW(s[1], s3))
  IN  <<r, <<s0, s1, XorW(s2, t), RotlW(s3, 45)>>>>         \* <<output, next state>>

(* KISS99: state <<z, w, jsr, jcong>> of 32-bit words *)
KissNext(k) ==
  LET z == TLCEval(AddW(MulW(W32(36969), <<k[1][1], 0>>), <<k[1][2], 0>>))
      w == TLCEval(AddW(MulW(W32(18000), <<k[2][1], 0>>), <<k[2][2], 0>>))
      c == TLCEval(AddW(MulW(W32(69069), k[4]), W32(1234567)))
      j1 == TLCEval(XorW(k[3], ShlW(k[3], 17)))
      j2 == TLCEval(XorW(j1, ShrW(j1, 13)))
      j3 == TLCEval(XorW(j2, ShlW(j2, 5)))
      out == AddW(XorW(AddW(ShlW(z, 16), w), c), j3)
  IN  <<out, <<z, w, j3, c>>>>
=============================================================================
