------------------------------ MODULE Blake2b ------------------------------
(* BLAKE2b (RFC 7693), unkeyed, with optional personalisation.             *)
EXTENDS Words, SequencesExt

IV == << <<51464,62396,58983,27145>>, <<42811,33994,44677,47975>>, <<63531,65172,62322,15470>>,
         <<14065,24349,62778,42319>>, <<33489,44518,21119,20750>>, <<27679,11070,26764,39685>>,
         <<48491,64321,55723,8067>>, <<8569,4990,52505,23520>> >>

Sigma == << <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>, <<14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3>>,
  <<11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4>>, <<7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8>>,
  <<9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13>>, <<2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9>>,
  <<12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11>>, <<13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10>>,
  <<6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5>>, <<10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0>> >>

\* which four working words each of the eight G applications of a round touches
GCols == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>,
            <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>

GMix(v, q, x, y) ==
  LET a1 == TLCEval(AddW(AddW(v[q[1]], v[q[2]]), x))
      d1 == TLCEval(RotrW(XorW(v[q[4]], a1), 32))
      c1 == TLCEval(AddW(v[q[3]], d1))
      b1 == TLCEval(RotrW(XorW(v[q[2]], c1), 24))
      a2 == TLCEval(AddW(AddW(a1, b1), y))
      d2 == TLCEval(RotrW(XorW(d1, a2), 16))
      c2 == TLCEval(AddW(c1, d2))
      b2 == TLCEval(RotrW(XorW(b1, c2), 63))
  IN  TLCEval([v EXCEPT ![q[1]] = a2, ![q[2]] = b2, ![q[3]] = c2, ![q[4]] = d2])

Round(v, m, r) ==
  FoldLeft(LAMBDA w, g : GMix(w, GCols[g], m[Sigma[(r % 10) + 1][(2 * g) - 1] + 1], m[Sigma[(r % 10) + 1][2 * g] + 1]),
           v, <<1,2,3,4,5,6,7,8>>)

\* h: 8 words, m: 16 words, t: bytes hashed so far (below 2^31), last: final block
Compress(h, m, t, last) ==
  LET v0 == TLCEval([i \in 1..16 |->
              IF i <= 8 THEN h[i]
              ELSE IF i = 13 THEN XorW(IV[5], W64(t))
              ELSE IF i = 15 /\ last THEN NotW(IV[7])
              ELSE IV[i - 8]])
      v == TLCEval(FoldLeft(LAMBDA w, r : Round(w, m, r), v0, [r \in 1..12 |-> r - 1]))
  IN  TLCEval([i \in 1..8 |-> XorW(h[i], XorW(v[i], v[i + 8]))])

\* msg, personalisation (<= 16 bytes), digest size in bytes
Blake2b(msg, person, size) ==
  LET P  == PadTo(person, 16)
      h0 == TLCEval([i \in 1..8 |->
              IF i = 1 THEN XorW(IV[1], W64(16842752 + size))      \* 0x01010000 + size
              ELSE IF i = 7 THEN XorW(IV[7], LE(P, 0, 4))
              ELSE IF i = 8 THEN XorW(IV[8], LE(P, 8, 4))
              ELSE IV[i]])
      nb == IF Len(msg) = 0 THEN 1 ELSE (Len(msg) + 127) \div 128
      p  == TLCEval(PadTo(msg, 128 * nb))
      h  == TLCEval(FoldLeft(LAMBDA s, b : Compress(s, WordsLE(Slice(p, 128 * (b - 1), 128), 4),
                                           IF b = nb THEN Len(msg) ELSE 128 * b, b = nb),
                     h0, [b \in 1..nb |-> b]))
  IN  SubSeq(BytesOfLE(h), 1, size)

Blake2b256(msg) == Blake2b(msg, << >>, 32)
=============================================================================
