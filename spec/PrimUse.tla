------------------------------ MODULE PrimUse -------------------------------
(* The shared building blocks as their users see them: functions, reusable  *)
(* hashers, and generators with a state of their own.  Any number of        *)
(* objects is in use at once; an operation concerns its own object only.    *)
EXTENDS Prims, Keccak, Blake2b, Integers, FiniteSets

VARIABLE objs      \* [object -> state of a generator, or size of a hasher's digest]

PrimInit == objs = << >>
Create(o, state) == o \notin DOMAIN objs /\ objs' = [x \in DOMAIN objs \cup {o} |-> IF x = o THEN state ELSE objs[x]]
Becomes(o, state) == o \in DOMAIN objs /\ objs' = [objs EXCEPT ![o] = state]
Same == UNCHANGED objs

\* a hasher writes its digest to the front of the destination
HashTo(o, data, before, after) ==
  /\ o \in DOMAIN objs
  /\ LET d == IF objs[o] = 32 THEN Keccak256(data) ELSE Keccak512(data)
     IN  after = d \o SubSeq(before, Len(d) + 1, Len(before))
  /\ Same

SipOp(o, op, arg, val) ==
  /\ o \in DOMAIN objs
  /\ LET s == objs[o]
     IN  CASE op = "hash24" -> val = << >> /\ Becomes(o, Hash24(s, arg))
           [] op = "hash48" -> val = << >> /\ Becomes(o, Hash48(s, arg))
           [] op = "round" -> val = << >> /\ Becomes(o, SipRound(s))
           [] op = "lanes" -> val = XorLanes(s) /\ Same
XoOp(o, val) ==
  o \in DOMAIN objs /\ LET n == XoNext(objs[o]) IN val = n[1] /\ Becomes(o, n[2])

\* functions: a is the record of arguments
FunctionValue(f, a) ==
  CASE f = "keccak256" -> Keccak256(a.data)
    [] f = "keccak512" -> Keccak512(a.data)
    [] f = "f800" -> KeccakF800(a.state)
    [] f = "cshake256" -> CShake256(a.data, a.person, a.size)
    [] f = "blake2b" -> Blake2b(a.data, a.person, a.size)
    [] f = "blake2b256" -> Blake2b256(a.data)
    [] f = "fnv1" -> Fnv1(a.u, a.v)
    [] f = "fnv1a" -> Fnv1a(a.u, a.v)
    [] f = "fnv1l" -> Fnv1L(a.u, a.v)
    [] f = "fnvhash" -> FnvHash(a.mix, a.data)
    [] f = "sipnode" -> SipNode(a.mask, a.keys, a.edge, a.uorv, FALSE)
    [] f = "sipnodelegacy" -> SipNode(a.mask, a.keys, a.edge, a.uorv, TRUE)
    [] f = "sipblock" -> SipBlock48(a.keys, a.edge)
    [] f = "xor" -> LET x == XorBytes(a.a, a.b) IN <<Len(x), x \o SubSeq(a.before, Len(x) + 1, Len(a.before))>>
    [] f = "wordsle" -> WordsLE(a.data, 2)
    [] f = "wordsbe" -> WordsBE(a.data, 2)
    [] f = "bytesle" -> FlattenSeq([i \in DOMAIN a.words |-> BytesLE(a.words[i])])
    [] f = "bytesbe" -> FlattenSeq([i \in DOMAIN a.words |-> BytesBE(a.words[i])])
=============================================================================
