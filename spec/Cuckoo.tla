------------------------------- MODULE Cuckoo ------------------------------
(* Cuckoo and Cuckaroo cycles.  A proof is a list of edges (64-bit words). *)
EXTENDS Blake2b, Prims, FiniteSets

CuckooKeys(header) == WordsLE(Blake2b256(header), 4)
LowMask(bits) == TLCEval([i \in 1..4 |-> IF 16 * i <= bits THEN 65535 ELSE IF 16 * (i - 1) >= bits THEN 0
                          ELSE (<<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768>>[(bits % 16) + 1]) - 1])
\* end points <<u, v>> of an edge
CuckooEnds(mask, keys, e, legacy) == <<SipNode(mask, keys, e, Zero(4), legacy), SipNode(mask, keys, e, W64(1), legacy)>>
CuckarooEnds(mask, keys, e) ==
  LET b == TLCEval(SipBlock48(keys, e))
  IN  <<AndW(b, mask), AndW(<<b[3], b[4], 0, 0>>, mask)>>

Ascending(edges) == \A i \in 1..(Len(edges) - 1) : LtW(edges[i], edges[i + 1])
InGraph(edges, mask) == \A i \in 1..Len(edges) : ~LtW(mask, edges[i])

(* The edges of ends (a sequence of <<u, v>>, the two sides of a bipartite *)
(* graph) form one simple cycle through all of them: every end point is    *)
(* shared by exactly two edges, and they are connected.                    *)
Degree2(ends) ==
  \A s \in {1, 2} : \A i \in 1..Len(ends) : Cardinality({j \in 1..Len(ends) : ends[j][s] = ends[i][s]}) = 2
RECURSIVE Reach(_, _)
Reach(ends, S) ==
  LET T == S \cup {j \in 1..Len(ends) : \E i \in S : ends[i][1] = ends[j][1] \/ ends[i][2] = ends[j][2]}
  IN  IF T = S THEN S ELSE Reach(ends, T)
Connected(ends) == Reach(ends, {1}) = 1..Len(ends)
SimpleCycle(ends) == Len(ends) >= 2 /\ Degree2(ends) /\ Connected(ends)

\* End(e): the end points of edge e
CycleValid(proofSize, mask, edges, End(_)) ==
  /\ Len(edges) = proofSize
  /\ InGraph(edges, mask)
  /\ Ascending(edges)
  /\ SimpleCycle(TLCEval([i \in 1..Len(edges) |-> End(edges[i])]))
CuckooValid(edgeBits, proofSize, header, edges, legacy) ==
  LET keys == TLCEval(CuckooKeys(header)) mask == LowMask(edgeBits)
      End(e) == CuckooEnds(mask, keys, e, legacy)
  IN  CycleValid(proofSize, mask, edges, End)
CuckarooValid(edgeBits, proofSize, header, edges) ==
  LET keys == TLCEval(CuckooKeys(header)) mask == LowMask(edgeBits)
      End(e) == CuckarooEnds(mask, keys, e)
  IN  CycleValid(proofSize, mask, edges, End)
=============================================================================
