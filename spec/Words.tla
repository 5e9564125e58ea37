------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words.  TLC integers are 32-bit signed, so an unsigned machine  *)
(* word is represented by the tuple of its 16-bit limbs, least significant *)
(* limb first: a 32-bit word is <<l0, l1>>, a 64-bit word is               *)
(* <<l0, l1, l2, l3>>.  Byte strings are sequences over 0..255.            *)
(*                                                                         *)
(* Every operator below is defined in plain TLA+.  java/Words.java         *)
(* contains an equivalent implementation that TLC picks up when the class  *)
(* is on its class path; PrimAgree.tla (run by tools/agree) compares both. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise, TLC

LOCAL B16 == 65536
LOCAL P2(n) == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>[n+1]

Zero(n)  == [i \in 1..n |-> 0]
W32(n)   == <<n % B16, n \div B16>>            \* for n below 2^31
W64(n)   == <<n % B16, n \div B16, 0, 0>>
IsZeroW(a) == \A i \in 1..Len(a) : a[i] = 0

XorW(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
AndW(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
OrW(a, b)  == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
NotW(a)    == TLCEval([i \in 1..Len(a) |-> 65535 - a[i]])

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
  IF i > Len(a) THEN << >>
  ELSE LET s == a[i] + b[i] + c IN <<s % B16>> \o AddC(a, b, i + 1, s \div B16)
AddW(a, b) == AddC(a, b, 1, 0)
NegW(a)    == AddW(NotW(a), [i \in 1..Len(a) |-> IF i = 1 THEN 1 ELSE 0])
SubW(a, b) == AddW(a, NegW(b))

\* product of two limbs as <<low, high>>, within 31-bit arithmetic
LOCAL LimbMul(x, y) ==
  LET x0 == x % 256   x1 == x \div 256
      m0 == x0 * y                       \* < 2^24
      m1 == x1 * y                       \* < 2^24
      t  == m0 + ((m1 % 256) * 256)        \* < 2^25
  IN  <<t % B16, (t \div B16) + (m1 \div 256)>>
\* a * (limb y), n limbs
RECURSIVE MulLimb(_, _, _, _)
MulLimb(a, y, i, c) ==
  IF i > Len(a) THEN << >>
  ELSE LET p == LimbMul(a[i], y)   s == p[1] + c
       IN  <<s % B16>> \o MulLimb(a, y, i + 1, p[2] + (s \div B16))
LOCAL ShiftLimbs(a, q) == [i \in 1..Len(a) |-> IF i > q THEN a[i - q] ELSE 0]
RECURSIVE MulAcc(_, _, _)
MulAcc(a, b, i) ==
  IF i > Len(b) THEN Zero(Len(a))
  ELSE AddW(ShiftLimbs(MulLimb(a, b[i], 1, 0), i - 1), MulAcc(a, b, i + 1))
MulW(a, b) == MulAcc(a, b, 1)                    \* modulo 2^(16*Len(a))
Widen(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
LowLimbs(a, n) == [i \in 1..n |-> a[i]]
HighLimbs(a, n) == [i \in 1..n |-> a[Len(a) - n + i]]

RotlW(a, s) ==
  LET n == Len(a)  q == (s \div 16) % n  r == s % 16
      at(i) == a[((i - 1 + (2 * n)) % n) + 1]
  IN  TLCEval([i \in 1..n |-> ((at(i - q) * P2(r)) % B16) + (at(i - q - 1) \div P2(16 - r))])
RotrW(a, s) == RotlW(a, ((16 * Len(a)) - (s % (16 * Len(a)))) % (16 * Len(a)))
ShlW(a, s) ==
  LET n == Len(a)  q == s \div 16  r == s % 16
      at(i) == IF i >= 1 THEN a[i] ELSE 0
  IN  TLCEval([i \in 1..n |-> ((at(i - q) * P2(r)) % B16) + (at(i - q - 1) \div P2(16 - r))])
ShrW(a, s) ==
  LET n == Len(a)  q == s \div 16  r == s % 16
      at(i) == IF i <= n THEN a[i] ELSE 0
  IN  TLCEval([i \in 1..n |-> (at(i + q) \div P2(r)) + ((at(i + q + 1) % P2(r)) * P2(16 - r))])

\* remainder of a word modulo a small number m (m <= 2^15)
RECURSIVE ModSmallFrom(_, _, _, _)
ModSmallFrom(a, m, i, r) ==
  IF i = 0 THEN r ELSE ModSmallFrom(a, m, i - 1, ((r * B16) + a[i]) % m)
\* remainder modulo m for any 0 < m < 2^31, bit by bit
RECURSIVE ModBits(_, _, _, _)
ModBits(a, m, i, r) ==      \* i: next bit index (0-based), from the top
  IF i < 0 THEN r
  ELSE LET bit == (a[(i \div 16) + 1] \div P2(i % 16)) % 2
           d   == IF r >= m - r THEN r - (m - r) ELSE r + r      \* 2r mod m without overflow
           e   == IF bit = 0 THEN d ELSE IF d = m - 1 THEN 0 ELSE d + 1
       IN  ModBits(a, m, i - 1, e)
ModW(a, m) == ModBits(a, m, 16 * Len(a) - 1, 0)
\* quotient of a word by a small number m < 2^15
RECURSIVE DivSmallFrom(_, _, _, _)
DivSmallFrom(a, m, i, r) ==
  IF i = 0 THEN << >>
  ELSE LET x == (r * B16) + a[i] IN DivSmallFrom(a, m, i - 1, x % m) \o <<x \div m>>
DivSmall(a, m) == DivSmallFrom(a, m, Len(a), 0)

RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i = 0 THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtFrom(a, b, i - 1)
LtW(a, b) == LtFrom(a, b, Len(a))                \* unsigned a < b
\* value of a word known to be below 2^31
ToInt(a) == IF Len(a) = 1 THEN a[1] ELSE a[1] + B16 * a[2]

BitOf(a, i) == (a[(i \div 16) + 1] \div P2(i % 16)) % 2     \* bit i, 0-based
RECURSIVE PopFrom(_, _)
PopFrom(a, i) == IF i < 0 THEN 0 ELSE BitOf(a, i) + PopFrom(a, i - 1)
PopCount(a) == PopFrom(a, 16 * Len(a) - 1)
RECURSIVE ClzFrom(_, _)
ClzFrom(a, i) == IF i < 0 THEN 0 ELSE IF BitOf(a, i) = 1 THEN 0 ELSE 1 + ClzFrom(a, i - 1)
Clz(a) == ClzFrom(a, 16 * Len(a) - 1)

(* bytes <-> words *)
\* word of n limbs from bytes b[o+1 .. o+2n], little endian
LE(b, o, n) == TLCEval([i \in 1..n |-> b[o + 2*i - 1] + 256 * b[o + 2*i]])
BE(b, o, n) == TLCEval([i \in 1..n |-> b[o + 2*(n-i) + 2] + 256 * b[o + 2*(n-i) + 1]])
BytesLE(w)  == TLCEval([i \in 1..(2 * Len(w)) |->
                  IF i % 2 = 1 THEN w[(i + 1) \div 2] % 256 ELSE w[i \div 2] \div 256])
BytesBE(w)  == LET n == 2 * Len(w) b == BytesLE(w) IN [i \in 1..n |-> b[n + 1 - i]]
\* byte string -> sequence of words of n limbs
WordsLE(b, n) == [k \in 1..(Len(b) \div (2*n)) |-> LE(b, (k-1)*2*n, n)]
WordsBE(b, n) == [k \in 1..(Len(b) \div (2*n)) |-> BE(b, (k-1)*2*n, n)]
\* sequence of words -> byte string
BytesOfLE(ws) ==
  IF ws = << >> THEN << >>
  ELSE LET m == 2 * Len(ws[1])
       IN  [i \in 1..(m * Len(ws)) |-> LET w == ws[((i - 1) \div m) + 1] j == (i - 1) % m
                                       IN  IF j % 2 = 0 THEN w[(j \div 2) + 1] % 256
                                           ELSE w[(j \div 2) + 1] \div 256]
XorBytes(a, b) == TLCEval([i \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) |-> a[i] ^^ b[i]])
Reverse8(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
PadTo(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE 0]
Slice(b, o, n) == SubSeq(b, o + 1, o + n)        \* n elements from offset o
=============================================================================
