--------------------------- MODULE RefinementTrace ---------------------------
(* C13: what the refinement maps of the implementation declare. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok
R == INSTANCE Refinement
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
SubOK(m, s) ==
   LET dim == Len(m.v[1])
       co == R!SubPositions(m, s)
       n == Len(co)
   IN /\ Len(s.nd) = Len(s.v)
      (* vertices of the reference element of the part go where the part is *)
      /\ s.corners = co
      /\ Len(s.at) = m.points
      /\ \A i \in DOMAIN s.at : LET a == s.at[i] IN
           (* all other points are interpolated *)
           /\ IF n = 5 THEN co = m.v /\ a.t = [d \in 1..dim |-> a.q[d] * 576]
              ELSE [d \in 1..dim |-> a.t[d] * 512] = [d \in 1..dim |-> 192 * R!Total([v \in 1..n |-> R!Weight(dim, n, v, a.q) * co[v][d]])]
           (* the matrices are the derivative and its inverse *)
           /\ \A d \in 1..dim : \A e \in 1..dim : a.l[d][e] = 2 * (a.up[e][d] - a.down[e][d])
           /\ \A d \in 1..dim : \A e \in 1..dim : a.lr[d][e] = IF d = e THEN 2304 ELSE 0
MapOK(m) ==
   LET
       RECURSIVE Cat(_)
       Cat(i) == IF i = 0 THEN <<>> ELSE Cat(i - 1) \o m.faces[i].sub
   IN /\ m.count = Len(m.new)
      /\ m.nsub = Len(m.subs)
      /\ R!Distinct(m.v \o m.new)
      /\ R!InRange(m)
      /\ R!Used(m)
      /\ R!Fills(m)
      /\ \A i \in DOMAIN m.subs : SubOK(m, m.subs[i])
      /\ {R!SetOf(R!SubPositions(m, m.subs[i])) : i \in DOMAIN m.subs} = R!Shown(m.shape, m.k, m.v)
      /\ Len(m.faces) = Len(m.f)
      /\ R!Conforms(m, Cat(Len(m.faces)))
      /\ \A i \in DOMAIN m.faces : R!FacetOK(m, i, m.faces[i].map, m.faces[i].nd, m.faces[i].sub)
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE p' = p + 1 /\ c' = c /\ ok' = MapOK(Cases[c].ev[p])
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
