---------------------------- MODULE NamedClients ----------------------------
(* The chains the named constructors are for, with their published          *)
(* parameters, and the answer of each as a function of the call alone.      *)
EXTENDS ChainParams, Autolykos2
P == INSTANCE ProgPow
H == INSTANCE Ethash
O == INSTANCE Octopus
EQ == INSTANCE Equihash
BM == INSTANCE BeamHash
CK == INSTANCE Cuckoo
HH == INSTANCE HeavyHash
ES == INSTANCE Eaglesong

Text == [zcash |-> <<90,99,97,115,104,80,111,87>>,          \* "ZcashPoW"
         bgold |-> <<66,103,111,108,100,80,111,87>>,        \* "BgoldPoW"
         aion  |-> <<65,73,79,78,48,80,111,87>>,            \* "AION0PoW"
         zel   |-> <<90,101,108,80,114,111,111,102>>,       \* "ZelProof"
         beam  |-> <<66,101,97,109,45,80,111,87>>]          \* "Beam-PoW"
EquihashOf(name) ==
  CASE name = "zcash"       -> [n |-> 200, k |-> 9, person |-> Text.zcash, twist |-> FALSE]
    [] name = "zclassic"    -> [n |-> 192, k |-> 7, person |-> Text.zcash, twist |-> FALSE]
    [] name = "bitcoingold" -> [n |-> 144, k |-> 5, person |-> Text.bgold, twist |-> FALSE]
    [] name = "aion"        -> [n |-> 210, k |-> 9, person |-> Text.aion, twist |-> FALSE]
    [] name = "flux"        -> [n |-> 125, k |-> 4, person |-> Text.zel, twist |-> TRUE]

Verdict(b) == [kind |-> IF b THEN "valid" ELSE "invalid"]
Ok(outs) == [kind |-> "ok", val |-> outs]

VerifyAnswer(name, header, soln) ==
  IF name = "beam" THEN Verdict(BM!BeamValid(Text.beam, header, soln))
  ELSE LET p == EquihashOf(name) IN Verdict(EQ!Valid(p.n, p.k, p.person, p.twist, header, soln))
\* 42 edges in a graph of 2^29 (Aeternity) or 2^30 (Cortex) edges
CycleAnswer(name, header, edges) ==
  Verdict(Len(edges) = 42 /\ IF name = "aeternity" THEN CK!CuckooValid(29, 42, header, edges, TRUE) ELSE CK!CuckarooValid(30, 42, header, edges))
L1Count == 4096
DagAnswer(chain, hash, height, nonce) ==
  LET c == Chain(chain)
      ep == EpochOf(c, height)
      ds == TLCEval(DsOf(c, ep))
      rows == DatasetRowsOf(c, ep)
  IN  CASE chain \in {"ETH", "ETC"} -> LET h == TLCEval(H!Hashimoto(hash, nonce, rows, ds)) IN Ok(<<h.mix, h.digest>>)
        [] chain \in {"RVN", "FIRO"} ->
             LET h == TLCEval(P!Compute(IF chain = "RVN" THEN "kawpow" ELSE "firopow", hash, height, nonce, rows \div 2, ds, TLCEval(L1Words(ds, c.l1))))
             IN  Ok(<<h.mix, h.digest>>)
        [] chain = "CFX" -> Ok(<<O!Octopus(hash, nonce, rows, ds)>>)
HashAnswer(name, in, a, b) ==
  CASE name = "kaspa" -> IF HH!Refused(in) THEN [kind |-> "err"] ELSE Ok(<<HH!HeavyHash(in, a, b)>>)
    [] name = "ergo" -> Ok(<<Autolykos(32, 67108864, in, a, b)>>)
    [] name = "nervos" -> Ok(<<ES!Eaglesong(in)>>)

SizesAnswer(chain, epoch) ==
  LET c == Chain(chain) IN Ok(<< MulW(W64(CacheRowsOf(c, epoch)), W64(64)), MulW(W64(DatasetRowsOf(c, epoch)), W64(c.mix)) >>)
EpochAnswer(chain, height) ==
  LET c == Chain(chain) IN Ok(FoldLeft(LAMBDA h, f : DivSmall(h, f), height, c.elf))
SeedAnswer(chain, height) == Ok(SeedOf(Chain(chain), EpochOf(Chain(chain), height)))
\* files: what each client has left in the directory they share
FilesAnswer(files) ==
  /\ \A c \in DOMAIN files : Cardinality({files[c][i] : i \in DOMAIN files[c]}) = Len(files[c]) /\ files[c] # << >>
  /\ \A c, d \in DOMAIN files : c # d => {files[c][i] : i \in DOMAIN files[c]} \cap {files[d][i] : i \in DOMAIN files[d]} = {}
=============================================================================
