---------------------------- MODULE ChainParams ----------------------------
(* The published parameters of the supported Ethash-like chains.  Sizes    *)
(* are in rows: 64 bytes for the cache, `mix' bytes for the dataset.       *)
EXTENDS ChainData

Chain(name) ==
  CASE name = "ETH"  -> [elf |-> <<30000>>, q |-> 1, ci |-> 262144, cg |-> 2048, di |-> 8388608, dg |-> 65536,
                         mix |-> 128, rounds |-> 3, parents |-> 256, l1 |-> 0, period |-> 0]
    [] name = "ETC"  -> [elf |-> <<30000, 2>>, q |-> 2, ci |-> 262144, cg |-> 2048, di |-> 8388608, dg |-> 65536,
                         mix |-> 128, rounds |-> 3, parents |-> 256, l1 |-> 0, period |-> 0]
    [] name = "RVN"  -> [elf |-> <<7500>>, q |-> 1, ci |-> 262144, cg |-> 2048, di |-> 8388608, dg |-> 65536,
                         mix |-> 128, rounds |-> 3, parents |-> 512, l1 |-> 4096, period |-> 3]
    [] name = "FIRO" -> [elf |-> <<1300>>, q |-> 1, ci |-> 262144, cg |-> 2048, di |-> 12582912, dg |-> 65536,
                         mix |-> 128, rounds |-> 3, parents |-> 512, l1 |-> 4096, period |-> 1]
    [] name = "CFX"  -> [elf |-> <<16384, 32>>, q |-> 1, ci |-> 262144, cg |-> 1024, di |-> 16777216, dg |-> 65536,
                         mix |-> 256, rounds |-> 3, parents |-> 256, l1 |-> 0, period |-> 0]
\* parameters of a recorded call: those of a chain, or its own
WideOf(e) == IF "chain" \in DOMAIN e THEN Wide(Chain(e.chain)) ELSE e.wide
ParamsOf(e) == IF "chain" \in DOMAIN e THEN Chain(e.chain) ELSE e.cfg
=============================================================================
