----------------------------- MODULE Eaglesong -----------------------------
(* The Eaglesong sponge over sixteen 32-bit words, with its documented     *)
(* parameters: 43 rounds, rate 256 bits, delimiter 6, 32 output bytes.     *)
EXTENDS Keccak

\* row k of the bit matrix: the output words that input word k is added to
BitMatrix == <<
  <<1,1,1,1,0,1,0,1,1,1,1,1,0,0,0,1>>, <<0,1,1,1,1,0,1,0,1,1,1,1,1,0,0,1>>,
  <<0,0,1,1,1,1,0,1,0,1,1,1,1,1,0,1>>, <<0,0,0,1,1,1,1,0,1,0,1,1,1,1,1,1>>,
  <<1,1,1,1,1,0,1,0,1,0,1,0,1,1,1,0>>, <<1,0,0,0,1,0,0,0,1,0,1,0,0,1,1,1>>,
  <<1,0,1,1,0,0,0,1,1,0,1,0,0,0,1,0>>, <<1,0,1,0,1,1,0,1,0,0,1,0,0,0,0,1>>,
  <<0,1,0,1,0,1,1,0,1,0,0,1,0,0,0,1>>, <<0,0,1,0,1,0,1,1,0,1,0,0,1,0,0,1>>,
  <<0,0,0,1,0,1,0,1,1,0,1,0,0,1,0,1>>, <<0,0,0,0,1,0,1,0,1,1,0,1,0,0,1,1>>,
  <<1,1,1,1,0,0,0,0,1,0,0,1,1,0,0,0>>, <<0,1,1,1,1,0,0,0,0,1,0,0,1,1,0,0>>,
  <<0,0,1,1,1,1,0,0,0,0,1,0,0,1,1,0>>, <<1,1,1,0,1,0,1,1,1,1,1,0,0,0,1,1>> >>
\* the two non-zero rotation amounts of each word's circulant polynomial
Circulant == << <<2,4>>, <<13,22>>, <<4,19>>, <<3,14>>, <<27,31>>, <<3,8>>, <<17,26>>, <<3,12>>,
                <<18,22>>, <<12,18>>, <<4,7>>, <<4,31>>, <<12,27>>, <<7,17>>, <<7,8>>, <<1,13>> >>

(* The injection constants are the SHAKE256 output, read as little-endian  *)
(* words, for the ASCII bytes of the text                                  *)
(*   The various ways in which the knowledge on which people base their     *)
(*   plan is communicated to them is the crucial problem for any theory     *)
(*   explaining the economic process, and the problem of what is the best   *)
(*   way to utilizing knowledge initially dispersed among all the people is *)
(*   at least one of the main problems of economic policy - or of designing *)
(*   an efficient economic system.                                          *)
SeedText == <<
  84, 104, 101, 32, 118, 97, 114, 105, 111, 117, 115, 32, 119, 97, 121, 115, 32, 105, 110, 32, 119, 104,
  105, 99, 104, 32, 116, 104, 101, 32, 107, 110, 111, 119, 108, 101, 100, 103, 101, 32, 111, 110, 32, 119,
  104, 105, 99, 104, 32, 112, 101, 111, 112, 108, 101, 32, 98, 97, 115, 101, 32, 116, 104, 101, 105, 114,
  32, 112, 108, 97, 110, 32, 105, 115, 32, 99, 111, 109, 109, 117, 110, 105, 99, 97, 116, 101, 100, 32,
  116, 111, 32, 116, 104, 101, 109, 32, 105, 115, 32, 116, 104, 101, 32, 99, 114, 117, 99, 105, 97, 108,
  32, 112, 114, 111, 98, 108, 101, 109, 32, 102, 111, 114, 32, 97, 110, 121, 32, 116, 104, 101, 111, 114,
  121, 32, 101, 120, 112, 108, 97, 105, 110, 105, 110, 103, 32, 116, 104, 101, 32, 101, 99, 111, 110, 111,
  109, 105, 99, 32, 112, 114, 111, 99, 101, 115, 115, 44, 32, 97, 110, 100, 32, 116, 104, 101, 32, 112,
  114, 111, 98, 108, 101, 109, 32, 111, 102, 32, 119, 104, 97, 116, 32, 105, 115, 32, 116, 104, 101, 32,
  98, 101, 115, 116, 32, 119, 97, 121, 32, 116, 111, 32, 117, 116, 105, 108, 105, 122, 105, 110, 103, 32,
  107, 110, 111, 119, 108, 101, 100, 103, 101, 32, 105, 110, 105, 116, 105, 97, 108, 108, 121, 32, 100, 105,
  115, 112, 101, 114, 115, 101, 100, 32, 97, 109, 111, 110, 103, 32, 97, 108, 108, 32, 116, 104, 101, 32,
  112, 101, 111, 112, 108, 101, 32, 105, 115, 32, 97, 116, 32, 108, 101, 97, 115, 116, 32, 111, 110, 101,
  32, 111, 102, 32, 116, 104, 101, 32, 109, 97, 105, 110, 32, 112, 114, 111, 98, 108, 101, 109, 115, 32,
  111, 102, 32, 101, 99, 111, 110, 111, 109, 105, 99, 32, 112, 111, 108, 105, 99, 121, 32, 45, 32, 111,
  114, 32, 111, 102, 32, 100, 101, 115, 105, 103, 110, 105, 110, 103, 32, 97, 110, 32, 101, 102, 102, 105,
  99, 105, 101, 110, 116, 32, 101, 99, 111, 110, 111, 109, 105, 99, 32, 115, 121, 115, 116, 101, 109, 46 >>
Rounds43 == 43
InjConst == TLCEval(WordsLE(TLCEval(Shake256(SeedText, 64 * Rounds43)), 2))

Times(s, j) == FoldLeft(LAMBDA acc, k : IF BitMatrix[k][j] = 1 THEN XorW(acc, s[k]) ELSE acc, Zero(2), [k \in 1..16 |-> k])
EagleRound(s, r, inj) ==          \* r is 0-based
  LET a == TLCEval([j \in 1..16 |-> Times(s, j)])
      b == TLCEval([j \in 1..16 |-> XorW(a[j], XorW(RotlW(a[j], Circulant[j][1]), RotlW(a[j], Circulant[j][2])))])
      c == TLCEval([j \in 1..16 |-> XorW(b[j], inj[(16 * r) + j])])
      up(j) == RotlW(AddW(c[j], c[j + 1]), 8)
  IN  TLCEval([j \in 1..16 |-> IF j % 2 = 1 THEN up(j) ELSE AddW(up(j - 1), RotlW(c[j], 24))])
PermuteWith(s, inj) == FoldLeft(LAMBDA t, r : EagleRound(t, r - 1, inj), s, [r \in 1..(Len(inj) \div 16) |-> r])
Permute(s) == PermuteWith(s, InjConst)

Delim == 6
(* Word j of block b.  The bytes of a word are joined most significant     *)
(* first; the delimiter follows the last input byte; nothing follows the   *)
(* delimiter, so that a final partial word is not aligned to the left.     *)
BlockWord(len, At(_), b, j) ==
  LET o == (32 * b) + (4 * (j - 1))
      bytes == SelectSeq([k \in 1..4 |-> IF o + k <= len THEN At(o + k) ELSE IF o + k = len + 1 THEN Delim ELSE -1],
                         LAMBDA x : x >= 0)
  IN  FoldLeft(LAMBDA w, x : OrW(ShlW(w, 8), W32(x)), Zero(2), bytes)
EagleAbsorb(len, At(_)) ==
  FoldLeft(LAMBDA s, b : TLCEval(Permute(TLCEval([j \in 1..16 |-> IF j <= 8 THEN XorW(s[j], BlockWord(len, At, b - 1, j)) ELSE s[j]]))),
           TLCEval([j \in 1..16 |-> Zero(2)]), [b \in 1..((len \div 32) + 1) |-> b])
EagleOf(len, At(_)) == BytesOfLE(TLCEval(SubSeq(TLCEval(EagleAbsorb(len, At)), 1, 8)))
Eaglesong(m) == EagleOf(Len(m), LAMBDA i : m[i])
\* the message of len bytes that repeats a unit
EaglesongCycle(unit, len) == EagleOf(len, LAMBDA i : unit[((i - 1) % Len(unit)) + 1])
=============================================================================
