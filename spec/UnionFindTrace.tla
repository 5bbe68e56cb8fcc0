--------------------------- MODULE UnionFindTrace ---------------------------
(* Conformance: every recorded operation is replayed with UnionFind!Apply    *)
(* and every recorded observation must be what the partition dictates.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Idx == {}
MaxOps == 0
VARIABLES uf, pairs, hist, c, p, ok
U == INSTANCE UnionFind
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)

SeqSet(q) == {q[i] : i \in 1..Len(q)}
(* e.rep[i]: representative of e.dom[i]; e.same: in-same-set of consecutive  *)
(* domain entries; e.it: iteration order                                      *)
ObsOK(P, e) ==
    LET dom == e.dom
        cls == TLCEval([i \in 1..Len(dom) |-> U!ClassOf(P, dom[i])])
    IN /\ \A i \in 1..Len(dom) : e.rep[i] \in cls[i]
       /\ \A i, j \in 1..Len(dom) : (e.rep[i] = e.rep[j]) = (cls[i] = cls[j])
       /\ \A i \in 1..Len(dom) :
             e.same[i] = (cls[i] = cls[1 + (i % Len(dom))])
       /\ Len(e.it) = Cardinality(SeqSet(e.it))
       /\ SeqSet(e.it) = U!Members(P)
FindOK(P, e) == e.op = "f" => e.r \in U!ClassOf(P, e.x)
SameOK(P, e) == e.op = "s" => e.r = U!Same(P, e.x, e.y)

TInit == /\ c \in 1..K /\ p = 1 /\ uf = U!InitUF /\ ok = TRUE
         /\ pairs = {} /\ hist = <<>>
TNext == /\ c <= Len(Cases)
         /\ UNCHANGED <<pairs, hist>>
         /\ IF p > Len(Cases[c].ev)
            THEN c' = c + K /\ p' = 1 /\ uf' = U!InitUF /\ ok' = TRUE
            ELSE LET e == Cases[c].ev[p] IN
                 /\ uf' = U!Apply(uf, e)
                 /\ ok' = (FindOK(uf, e) /\ SameOK(uf, e) /\ ("dom" \in DOMAIN e => ObsOK(uf', e)))
                 /\ p' = p + 1 /\ c' = c
TSpec == TInit /\ [][TNext]_<<uf, pairs, hist, c, p, ok>>
TraceOK == ok
=============================================================================
