-------------------------------- MODULE C20 --------------------------------
EXTENDS TraceBase, Autolykos2
Pow2(n) == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,131072,262144,524288,
             1048576,2097152,4194304,8388608,16777216,33554432,67108864>>[n + 1]
Expected(e) == IF e.op = "size" THEN [kind |-> "ok", val |-> [i \in DOMAIN e.heights |-> TableSize(e.base, e.heights[i])]] ELSE [kind |-> "ok", val |-> <<Autolykos(e.k, Pow2(e.n), e.msg, e.height, e.nonce)>>]
Matches == pos > 0 => Lived(Calls[pos]) /\ Calls[pos].res = Expected(Calls[pos])
=============================================================================
