------------------------------ MODULE BeamHash -----------------------------
(* BeamHash III verification.  Work bits are 512-bit words of which the    *)
(* low 448 (and later fewer) bits are in use.                              *)
EXTENDS Blake2b, Prims, FiniteSets

WorkBits == 448   CollBits == 24   Levels == 5   Leaves == 32

Person(person) == person \o BytesLE(W32(WorkBits)) \o BytesLE(W32(Levels))
\* the four SipHash keys, from header and extra nonce (last 4 bytes of soln)
PrePow(person, header, soln) == WordsLE(Blake2b(header \o Slice(soln, 100, 4), Person(person), 32), 4)
\* 25-bit indices, least significant bits first
BeamIndices(soln) ==
  LET s == TLCEval(LE(PadTo(Slice(soln, 0, 100), 102), 0, 51))
      mask == [i \in 1..51 |-> IF i = 1 THEN 65535 ELSE IF i = 2 THEN 511 ELSE 0]
  IN  TLCEval([i \in 1..Leaves |-> ToInt(AndW(ShrW(s, 25 * (i - 1)), mask))])

LeafBits(pre, idx) ==
  LET base == TLCEval(ShlW(W64(idx), 3))
      h == TLCEval([i \in 1..7 |-> XorLanes(Hash24(pre, AddW(base, W64(i - 1))))])
  IN  TLCEval(Widen(h[1] \o h[2] \o h[3] \o h[4] \o h[5] \o h[6] \o h[7], 32))

\* number of bits of a node that enters level l, and of one produced by it
InBits(l)  == WorkBits - ((l - 1) * CollBits) - (IF l = 5 THEN 64 ELSE 0)
OutBits(l) == IF l = 5 THEN CollBits ELSE WorkBits - (l * CollBits) - (IF l = 4 THEN 64 ELSE 0)

\* low 64 bits replaced by a mix of everything and the node's first indices
Mix(bits, ix, rem) ==
  LET want == ((512 - rem) + CollBits) \div (CollBits + 1)
      pad == IF Len(ix) < want THEN Len(ix) ELSE want
      t == TLCEval(FoldLeft(LAMBDA acc, i : OrW(acc, ShlW(Widen(W32(ix[i]), 32), rem + ((i - 1) * (CollBits + 1)))),
                            bits, [i \in 1..pad |-> i]))
      sum == TLCEval(FoldLeft(LAMBDA acc, i : AddW(acc, RotlW(Slice(t, 4 * (i - 1), 4), (29 * i) % 64)), Zero(4), [i \in 1..8 |-> i]))
      r == TLCEval(RotlW(sum, 24))
  IN  TLCEval([i \in 1..32 |-> IF i <= 4 THEN r[i] ELSE bits[i]])
Coll24(bits) == <<bits[1], bits[2] % 256>>
LowBits(w, m) ==     \* keep the m lowest bits
  TLCEval([i \in 1..Len(w) |-> IF 16 * i <= m THEN w[i]
                       ELSE IF 16 * (i - 1) >= m THEN 0 ELSE w[i] % (<<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768>>[(m % 16) + 1])])
\* a node is [bits, ix]
MixedNode(n, l) == [bits |-> Mix(n.bits, n.ix, InBits(l)), ix |-> n.ix]
Join(a, b, l) == [bits |-> LowBits(ShrW(XorW(a.bits, b.bits), CollBits), OutBits(l)), ix |-> a.ix \o b.ix]
Level(nodes, l) ==      \* << all pairs collide?, joined nodes >>
  LET mx == TLCEval([i \in 1..Len(nodes) |-> MixedNode(nodes[i], l)])
  IN  << \A p \in 1..(Len(nodes) \div 2) : Coll24(mx[(2 * p) - 1].bits) = Coll24(mx[2 * p].bits),
         TLCEval([p \in 1..(Len(nodes) \div 2) |-> Join(mx[(2 * p) - 1], mx[2 * p], l)]) >>
RECURSIVE Climb(_, _)
Climb(nodes, l) ==
  IF Len(nodes) = 1 THEN IsZeroW(nodes[1].bits)
  ELSE LET r == TLCEval(Level(nodes, l)) IN r[1] /\ Climb(r[2], l + 1)

BeamOrdered(ix) ==
  \A l \in 0..4 : LET m == <<2,4,8,16,32>>[l + 1] IN
     \A b \in 0..((Leaves \div m) - 1) : ix[(b * m) + 1] < ix[(b * m) + (m \div 2) + 1]
BeamValid(person, header, soln) ==
  /\ Len(header) = 40
  /\ Len(soln) = 104
  /\ LET ix == BeamIndices(soln)
     IN  /\ Cardinality({ix[i] : i \in 1..Leaves}) = Leaves
         /\ BeamOrdered(ix)
         /\ LET pre == TLCEval(PrePow(person, header, soln))
            IN  Climb(TLCEval([i \in 1..Leaves |-> [bits |-> LeafBits(pre, ix[i]), ix |-> <<ix[i]>>]]), 1)
=============================================================================
