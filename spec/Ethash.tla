------------------------------- MODULE Ethash ------------------------------
(* Hashimoto (light).                                                      *)
EXTENDS Dag

HashimotoRounds == 64
Hashimoto(hash, nonce, rows128, ds) ==
  LET seed == TLCEval(Keccak512(hash \o BytesLE(nonce)))
      head == LE(seed, 0, 2)
      mix0 == WordsLE(seed, 2) \o WordsLE(seed, 2)
      step(m, i) ==
        LET p == TLCEval(ModW(Fnv1(XorW(W32(i), head), m[(i % 32) + 1]), rows128))
            two == TLCEval(AddW(W32(p), W32(p)))
        IN  FnvHash(m, TLCEval(Item(ds, two) \o Item(ds, AddW(two, W32(1)))))
      mix == TLCEval(FoldLeft(step, TLCEval(mix0), [i \in 1..HashimotoRounds |-> i - 1]))
      cmix == TLCEval(BytesOfLE(TLCEval([k \in 1..8 |->
                 Fnv1(Fnv1(Fnv1(mix[4*k - 3], mix[4*k - 2]), mix[4*k - 1]), mix[4*k])])))
  IN  [mix |-> cmix, digest |-> Keccak256(seed \o cmix)]
=============================================================================
