--------------------------- MODULE QuadratureTrace ---------------------------
(* C25.  Events: rule (a rule of a reference shape and its moments), head (elements and shapes), basis     *)
(* (orders assigned), use (rules of elements and faces), ei, fi (recorded integrals).                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, el, ord
Q == INSTANCE Quadrature
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in DOMAIN q}
Near(a, b, t) == a - b <= t /\ b - a <= t
(* rules up to the highest order that is available *)
RuleOK(e) ==
   IF ~e.ok THEN e.ask > e.top
   ELSE /\ e.got >= e.ask
        /\ e.dim = Q!DimOf(e.shape)
        /\ e.own
        /\ e.np > 0 /\ e.inside = e.np
        /\ {m.e : m \in S(e.mo)} = Q!Exact(e.shape, e.deg)
        /\ e.deg >= e.ask
        /\ \A i \in DOMAIN e.mo : LET m == e.mo[i]  x == TLCEval(Q!Moment(e.shape, m.e)) IN
              m.d = x[2] /\ Near(m.v, 100000000 * x[1], 4)
UseOK(e) ==
   LET need == Q!Needed(S(ord)) IN
   /\ \A i \in DOMAIN e.e : e.e[i][2] >= need /\ e.e[i][3]
   /\ \A i \in DOMAIN e.f : e.f[i][3] >= need /\ e.f[i][4]
Dim == Cases[c].dim
Shape(e) == Cases[c].sh[CHOOSE i \in DOMAIN Cases[c].sh : Cases[c].sh[i].nv = Len(e.co)]
Facets(e) == [i \in DOMAIN Shape(e).fa |-> Shape(e).fa[i].v]
Same(v, x) == Len(v) = Len(x) /\ \A k \in DOMAIN x : Near(v[k], 16 * x[k], 2)
EiOK(x) == LET e == el[x.id] IN
   ~Q!Polynomial(e.co) \/ LET a == TLCEval(Q!ElementAll(Dim, e.co, Facets(e))) IN
      Q!Closed(Dim, e.co, Facets(e)) /\ \A i \in DOMAIN x.v : Same(x.v[i], a)
FiOK(x) ==
   LET a == el[x.l[1]]
       u == TLCEval(Q!FacetAll(Dim, a.co, Facets(a)[x.l[2] + 1]))
   IN /\ \A i \in DOMAIN x.v : Same(x.v[i], u)
      /\ (Len(x.r) = 0 <=> Len(x.w) = 0)
      /\ Len(x.r) = 0 \/ LET b == el[x.r[1]]
                             w == TLCEval(Q!FacetAll(Dim, b.co, Facets(b)[x.r[2] + 1]))
                         IN \A i \in DOMAIN x.w : Same(x.w[i], w)
Do(e) ==
   CASE e.c = "rule" -> ok' = RuleOK(e) /\ UNCHANGED <<el, ord>>
     [] e.c = "head" -> el' = [id \in {x.id : x \in S(e.el)} |-> CHOOSE x \in S(e.el) : x.id = id] /\ ok' = TRUE /\ UNCHANGED ord
     [] e.c = "basis" -> ord' = (IF e.u < 0 THEN [u \in DOMAIN e.all |-> e.o] ELSE [u \in DOMAIN e.all |-> IF u = e.u + 1 THEN e.o ELSE IF u \in DOMAIN ord THEN ord[u] ELSE 0]) /\ ok' = TRUE /\ UNCHANGED el
     [] e.c = "use" -> ok' = UseOK(e) /\ UNCHANGED <<el, ord>>
     [] e.c = "ei" -> ok' = (\A i \in DOMAIN e.s : EiOK(e.s[i])) /\ UNCHANGED <<el, ord>>
     [] e.c = "fi" -> ok' = (\A i \in DOMAIN e.s : FiOK(e.s[i])) /\ UNCHANGED <<el, ord>>
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ el = <<>> /\ ord = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ el' = <<>> /\ ord' = <<>>
            ELSE p' = p + 1 /\ c' = c /\ Do(Cases[c].ev[p])
TSpec == TInit /\ [][TNext]_<<c, p, ok, el, ord>>
TraceOK == ok
=============================================================================
