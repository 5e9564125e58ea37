------------------------------ MODULE ProgPow ------------------------------
(* ProgPow 0.9.4 and its KawPow and FiroPow variants.                      *)
EXTENDS Dag

Lanes == 16   Regs == 32   LoopRounds == 64   CacheAccesses == 11   MathOps == 18
L1Items == 4096

(* random choice of operations *)
RandomMath(a, b, sel) ==
  LET k == ModW(sel, 11) IN
  CASE k = 0 -> AddW(a, b)
    [] k = 1 -> MulW(a, b)
    [] k = 2 -> HighLimbs(MulW(Widen(a, 4), Widen(b, 4)), 2)
    [] k = 3 -> IF LtW(a, b) THEN a ELSE b
    [] k = 4 -> RotlW(a, b[1] % 32)
    [] k = 5 -> RotrW(a, b[1] % 32)
    [] k = 6 -> AndW(a, b)
    [] k = 7 -> OrW(a, b)
    [] k = 8 -> XorW(a, b)
    [] k = 9 -> W32(Clz(a) + Clz(b))
    [] k = 10 -> W32(PopCount(a) + PopCount(b))
RandomMerge(a, b, sel) ==
  LET k == sel[1] % 4   x == (sel[2] % 31) + 1 IN
  CASE k = 0 -> AddW(MulW(a, W32(33)), b)
    [] k = 1 -> MulW(XorW(a, b), W32(33))
    [] k = 2 -> XorW(RotlW(a, x), b)
    [] k = 3 -> XorW(RotrW(a, x), b)

(* initial lane registers from the 64-bit seed *)
LaneInit(seed, lane) ==
  LET z == TLCEval(Fnv1a(FnvOffset, LowLimbs(seed, 2)))
      w == TLCEval(Fnv1a(z, HighLimbs(seed, 2)))
      jsr == TLCEval(Fnv1a(w, W32(lane)))
      jc == TLCEval(Fnv1a(jsr, W32(lane)))
      step(acc, i) == LET k == TLCEval(KissNext(acc[1])) IN <<k[2], Append(acc[2], k[1])>>
  IN  FoldLeft(step, <<<<z, w, jsr, jc>>, << >>>>, [i \in 1..Regs |-> i])[2]
InitMix(seed) == TLCEval([l \in 1..Lanes |-> LaneInit(seed, l - 1)])

(* the program generator of a period: shuffled register sequences and rng *)
ProgInit(prog) ==
  LET lo == LowLimbs(prog, 2)   hi == HighLimbs(prog, 2)
      z == TLCEval(Fnv1a(FnvOffset, lo))
      w == TLCEval(Fnv1a(z, hi))
      jsr == TLCEval(Fnv1a(w, lo))
      jc == TLCEval(Fnv1a(jsr, hi))
      swap(s, i, j) == TLCEval([s EXCEPT ![i] = s[j], ![j] = s[i]])
      step(acc, n) ==       \* n from Regs down to 2
        LET i == Regs + 1 - n
            k1 == TLCEval(KissNext(acc.rng))   k2 == TLCEval(KissNext(k1[2]))
        IN  [rng |-> k2[2],
             dst |-> swap(acc.dst, i, ModW(k1[1], i) + 1),
             src |-> swap(acc.src, i, ModW(k2[1], i) + 1)]
      id == [i \in 1..Regs |-> i]
  IN  FoldLeft(step, [rng |-> <<z, w, jsr, jc>>, dst |-> id, src |-> id], [n \in 1..(Regs - 1) |-> n])

(* The program of a period as a list of instructions, in execution order.  *)
(* It does not depend on the data: the same list is run in every round.    *)
ProgStep(acc, i) ==     \* acc: [g, ns, nd, ins]; i is 1-based
  LET g0 == acc.g
      c == i <= CacheAccesses
      k1 == TLCEval(KissNext(g0.rng))
      insC == [k |-> "cache", src |-> g0.src[(acc.ns % Regs) + 1], dst |-> g0.dst[(acc.nd % Regs) + 1], sel |-> k1[1], s2 |-> 0, sel2 |-> k1[1]]
      rng1 == IF c THEN k1[2] ELSE g0.rng
      ns1 == IF c THEN acc.ns + 1 ELSE acc.ns
      nd1 == IF c THEN acc.nd + 1 ELSE acc.nd
      m == i <= MathOps
      k2 == TLCEval(KissNext(rng1))
      sr == ModW(k2[1], Regs * (Regs - 1))
      s1 == sr % Regs
      sq == sr \div Regs
      s2 == IF sq >= s1 THEN sq + 1 ELSE sq
      k3 == TLCEval(KissNext(k2[2]))
      k4 == TLCEval(KissNext(k3[2]))
      insM == [k |-> "math", src |-> s1 + 1, s2 |-> s2 + 1, sel |-> k3[1], dst |-> g0.dst[(nd1 % Regs) + 1], sel2 |-> k4[1]]
      rng2 == IF m THEN k4[2] ELSE rng1
      nd2 == IF m THEN nd1 + 1 ELSE nd1
  IN  TLCEval([g |-> [g0 EXCEPT !.rng = rng2], ns |-> ns1, nd |-> nd2,
       ins |-> (acc.ins \o (IF c THEN <<insC>> ELSE << >>)) \o (IF m THEN <<insM>> ELSE << >>)])
DagStep(acc, i) ==      \* the four DAG words of a lane, i is 1-based
  LET k == TLCEval(KissNext(acc.g.rng))
  IN  TLCEval([g |-> [acc.g EXCEPT !.rng = k[2]], ns |-> acc.ns, nd |-> IF i = 1 THEN acc.nd ELSE acc.nd + 1,
       ins |-> Append(acc.ins, [k |-> "dag", src |-> i, s2 |-> 0, sel |-> k[1], sel2 |-> k[1],
                                dst |-> IF i = 1 THEN 1 ELSE acc.g.dst[(acc.nd % Regs) + 1]])])
Program(prog, words) ==
  LET a == TLCEval(FoldLeft(ProgStep, [g |-> ProgInit(prog), ns |-> 0, nd |-> 0, ins |-> << >>],
                    [i \in 1..MathOps |-> i]))
      b == TLCEval(FoldLeft(DagStep, a, [i \in 1..words |-> i]))
  IN  b.ins

(* one instruction on one lane *)
ExecLane(R, ins, l, r, item, l1, words) ==
  CASE ins.k = "cache" -> [R EXCEPT ![ins.dst] = RandomMerge(R[ins.dst], l1[ModW(R[ins.src], Len(l1)) + 1], ins.sel)]
    [] ins.k = "math" -> [R EXCEPT ![ins.dst] = RandomMerge(R[ins.dst], RandomMath(R[ins.src], R[ins.s2], ins.sel), ins.sel2)]
    [] ins.k = "dag" -> LET o == (((l - 1) ^^ r) % Lanes) * words
                        IN  [R EXCEPT ![ins.dst] = RandomMerge(R[ins.dst], item[o + ins.src], ins.sel)]
RunLane(R, program, l, r, item, l1, words) ==
  FoldLeft(LAMBDA s, ins : TLCEval(ExecLane(s, ins, l, r, item, l1, words)), R, program)
RoundOn(mix, r, program, item, l1) == TLCEval([l \in 1..Lanes |-> RunLane(mix[l], program, l, r, item, l1, Len(item) \div Lanes)])
RoundIndex(mix, r, rows256) == ModW(mix[(r % Lanes) + 1][1], rows256)
RoundStep(mix, r, program, rows256, ds, l1) ==   \* r is 0-based
  RoundOn(mix, r, program, TLCEval(WideItem(ds, W32(RoundIndex(mix, r, rows256)), 4)), l1)

\* mix hash, 32 bytes.  prog: 64-bit period number, seed: 64-bit
MixHash(prog, seed, rows256, ds, l1) ==
  LET program == TLCEval(Program(prog, 4))
      mix == TLCEval(FoldLeft(LAMBDA m, r : RoundStep(m, r - 1, program, rows256, ds, l1),
                              InitMix(seed), [r \in 1..LoopRounds |-> r]))
      lane(l) == FoldLeft(LAMBDA h, x : Fnv1a(h, x), FnvOffset, mix[l])
      lh == TLCEval([l \in 1..Lanes |-> lane(l)])
  IN  BytesOfLE(TLCEval([i \in 1..8 |-> Fnv1a(Fnv1a(FnvOffset, lh[i]), lh[i + 8])]))

(* Keccak-f800 framing *)
RavencoinKawpow == << 114, 65, 86, 69, 78, 67, 79, 73, 78, 75, 65, 87, 80, 79, 87 >>
InitPad(variant, i) ==     \* 1-based state word 11..25
  CASE variant = "kawpow" -> W32(RavencoinKawpow[i - 10])
    [] variant = "firopow" -> IF i = 11 THEN W32(1) ELSE IF i = 19 THEN <<32897, 32768>> ELSE Zero(2)
    [] OTHER -> Zero(2)
FinalPad(variant, i) ==    \* 1-based state word 17..25
  CASE variant = "kawpow" -> W32(RavencoinKawpow[i - 16])
    [] variant = "firopow" -> IF i = 18 THEN W32(1) ELSE IF i = 25 THEN <<32897, 32768>> ELSE Zero(2)
    [] OTHER -> Zero(2)
PeriodLength(variant) == CASE variant = "kawpow" -> 3 [] variant = "firopow" -> 1 [] OTHER -> 10

Compute(variant, hash, height, nonce, rows256, ds, l1) ==
  LET h == WordsLE(hash, 2)
      s == TLCEval(KeccakF800(TLCEval([i \in 1..25 |->
             IF i <= 8 THEN h[i] ELSE IF i = 9 THEN LowLimbs(nonce, 2) ELSE IF i = 10 THEN HighLimbs(nonce, 2)
             ELSE InitPad(variant, i)])))
      mh == TLCEval(MixHash(DivSmall(height, PeriodLength(variant)), s[1] \o s[2], rows256, ds, l1))
      m == WordsLE(mh, 2)
      f == TLCEval(KeccakF800(TLCEval([i \in 1..25 |->
             IF i <= 8 THEN s[i] ELSE IF i <= 16 THEN m[i - 8] ELSE FinalPad(variant, i)])))
  IN  [mix |-> mh, digest |-> BytesOfLE(SubSeq(f, 1, 8))]
=============================================================================
