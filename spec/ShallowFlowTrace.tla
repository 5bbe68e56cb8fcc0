-------------------------- MODULE ShallowFlowTrace --------------------------
(* C38: recorded time derivatives, masses and limited layers of the real application.                               *)
EXTENDS ShallowFlow, Json, IOUtils
VARIABLES c, p, ok
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
Trace(s, t) == St(s[t], s[3], s[4])
Out(cs, e, f) == LET s == Trace(e.el[f.e[1]].s, f.t[1]) IN
   IF f.b > 0 THEN Boundary(f.b, cs.dim, s, f.n, St(e.x[1], e.x[2], e.x[3])) ELSE Hll(s, Trace(e.el[f.e[2]].s, f.t[2]), f.n)
(* Twice the moment of the flux in an element, in units of 1/1024 *)
Inner(cs, e, k, q, d) == LET s == e.el[k].s IN
   IF cs.dim = 2 THEN Div(2 * cs.m[k] * Flux10(Trace(s, 1), <<IF d = 1 THEN 5 ELSE 0, IF d = 2 THEN 5 ELSE 0>>)[q] * 512, 5)
   ELSE LET x == s[1] * s[1]  y == s[2] * s[2] IN
        cs.m[k] * (CASE q = 1 -> 1024 * s[3] * (x + y) [] q = 2 -> 1024 * s[3] * s[3] * (x + y) + Div(1024 * (x * x + x * y + y * y), 3))
RECURSIVE Faces(_, _, _, _, _, _, _)
Faces(cs, e, fl, k, q, d, i) == IF i = 0 THEN 0 ELSE Faces(cs, e, fl, k, q, d, i - 1) +
   (LET f == cs.fa[i]
        w(j) == IF d = 0 THEN 1 ELSE f.x[j][d]
    IN (IF f.e[1] = k THEN -fl[i][q] * f.l * w(1) ELSE 0) + (IF Len(f.e) = 2 /\ f.e[Len(f.e)] = k THEN fl[i][q] * f.l * w(2) ELSE 0))
RECURSIVE Slack(_, _, _, _)
Slack(cs, k, d, i) == IF i = 0 THEN 4 ELSE Slack(cs, k, d, i - 1) + (IF k \in {cs.fa[i].e[j] : j \in DOMAIN cs.fa[i].e} THEN cs.fa[i].l * (IF d = 0 THEN 1 ELSE 32) ELSE 0)
RhsOK(cs, e) == LET fl == [i \in DOMAIN cs.fa |-> Out(cs, e, cs.fa[i])] IN
   \A k \in DOMAIN e.el : \A q \in DOMAIN e.el[k].m :
      /\ Near(e.el[k].m[q][1], Faces(cs, e, fl, k, q, 0, Len(cs.fa)), Slack(cs, k, 0, Len(cs.fa)))
      /\ \A d \in 1..(Len(e.el[k].m[q]) - 1) :
            Near(2 * e.el[k].m[q][d + 1], Faces(cs, e, fl, k, q, d, Len(cs.fa)) + Inner(cs, e, k, q, d), 2 * Slack(cs, k, d, Len(cs.fa)))
(* Nothing is added to the mass, and friction never pushes. *)
Friction(el) == /\ el.f[1] = 0
                /\ el.s[3] * el.f[2] <= 0 /\ (el.s[3] = 0 => el.f[2] = 0)
                /\ Len(el.f) = 3 => (el.s[4] * el.f[3] <= 0 /\ Near(el.f[2] * el.s[4], el.f[3] * el.s[3], 8))
RunOK(e) == \A i \in DOMAIN e.mass : Near(e.mass[i], e.mass[1], 1)
Twice(el, k) == Sum(el[k])
LimOK(cs, e) == \A k \in DOMAIN e.el : LET x == e.el[k] IN
   CASE e.kind = "layer" -> LayerOK(x.b, x.a, e.low)
     [] e.kind = "avg" -> AverageOK(x.b, x.a, e.low)
     [] e.kind = "tvb" -> \A q \in 1..2 : LET nb == cs.nb[k]  inside == nb[1] > 0 /\ nb[2] > 0 IN
          SlopeOK(x.b[q], x.a[q], IF nb[1] > 0 THEN Sum(e.el[nb[1]].b[q]) ELSE 0, IF nb[2] > 0 THEN Sum(e.el[nb[2]].b[q]) ELSE 0, inside, cs.m[k])
EventOK(cs, e) == CASE e.c = "rhs" -> RhsOK(cs, e) /\ \A k \in DOMAIN e.el : Friction(e.el[k]) [] e.c = "run" -> RunOK(e) [] e.c = "lim" -> LimOK(cs, e)
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE c' = c /\ p' = p + 1 /\ ok' = EventOK(Cases[c], Cases[c].ev[p])
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
