----------------------------- MODULE CurvedTrace -----------------------------
(* C31: recorded meshes of elements of second order.  Events: ref (tables of the shape), el (elements), ep    *)
(* (points of elements), fp (points and normals of faces), int (integrals over elements and faces).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, sh, el
C == INSTANCE CurvedElements
P == INSTANCE Polytopes
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in DOMAIN q}
Dim == Cases[c].dim
Near(a, b, t) == a - b <= t /\ b - a <= t
Down(s) == {x - 1 : x \in s}
Unit(d, i) == [k \in 1..d |-> IF i = k THEN 1 ELSE 0]
(* reference positions, in halves *)
RefNode(d, v) == IF d = 1 THEN <<2 * (v - 2)>> ELSE C!G!Add(Unit(d, C!Pairs[v][1]), Unit(d, C!Pairs[v][2]))
RefOK(x) ==
   LET facets == P!FacetTable(Dim, x.nv) IN
   /\ x.nv = C!Nodes(Dim) /\ Len(x.co) = x.nv
   /\ \A v \in 1..x.nv : x.co[v] = RefNode(Dim, v)
   /\ Len(x.fa) = Len(facets)
   /\ \A i \in DOMAIN facets :
        LET f == x.fa[i] IN
        /\ f.n = C!Nodes(Dim - 1) /\ f.n = Len(f.v) /\ S(f.v) = Down(facets[i]) /\ Cardinality(S(f.v)) = Len(f.v)
        /\ \A v \in 1..f.n : f.c[v] = RefNode(Dim - 1, v)
        /\ f.im = C!Pick(x.co, f.v)
        /\ Dim = 3 => {{f.v[f.sub[k][j] + 1] : j \in DOMAIN f.sub[k]} : k \in DOMAIN f.sub} = {Down(g) : g \in {h \in S(P!EdgeTable(x.nv)) : Down(h) \subseteq S(f.v)}}
   /\ Dim = 3 => [i \in DOMAIN x.ed |-> S(x.ed[i])] = [i \in DOMAIN P!EdgeTable(x.nv) |-> Down(P!EdgeTable(x.nv)[i])]
ElementOK(x) == LET e == el[x.id] IN
   \A i \in DOMAIN x.p : LET t == x.p[i] IN
      /\ t.x = C!PointOf(Dim, e.co, t.q)
      /\ t.j = C!JacobianOf(Dim, e.co, t.q)
      /\ \A d \in DOMAIN t.q : Near(t.b[d], 10000 * t.q[d], 2)
      /\ t.in
Facet(k) == sh[1].fa[k + 1].v
FaceOK(x) ==
   LET a == el[x.l[1]]
       f == Facet(x.l[2])
       fa == C!Pick(a.co, f)
   IN /\ x.nv = Len(f)
      /\ \A i \in DOMAIN x.p : LET t == x.p[i] IN
           /\ t.x = C!PointOf(Dim - 1, fa, t.q)
           /\ t.L = t.x
           /\ t.n = C!Normal(a.co, fa, t.q)
      /\ Len(x.r) = 0 \/
         LET b == el[x.r[1]]
             g == Facet(x.r[2])
         IN /\ {a.nd[f[k] + 1] : k \in DOMAIN f} = {b.nd[g[k] + 1] : k \in DOMAIN g}
            /\ LET m == C!G!Matched(a.nd, f, b.nd, g)
                   fb == [k \in DOMAIN m |-> b.co[g[m[k]] + 1]]
               IN \A i \in DOMAIN x.p : LET t == x.p[i] IN
                    /\ t.R = C!PointOf(Dim - 1, fb, t.q)
                    /\ C!G!Sub(t.R, t.L) = C!G!Sub(x.p[1].R, x.p[1].L)
                    /\ x.per \/ t.R = t.L
                    /\ t.L2 = t.L /\ t.R2 = t.R
(* integrals: the volume, the integrated normals, and the flux of every coordinate out of an element *)
IntOK(e) ==
   LET vol == TLCEval([id \in DOMAIN el |-> C!Volume(Dim, el[id].co)])
       Flux(id, s, d) == IF s = "l" THEN {<<i, 1>> : i \in {j \in DOMAIN e.fi : e.fi[j].l[1] = id}} ELSE {<<i, 2>> : i \in {j \in DOMAIN e.fi : Len(e.fi[j].r) > 0 /\ e.fi[j].r[1] = id}}
       Value(t, d) == LET x == e.fi[t[1]] IN (IF t[2] = 1 THEN x.v ELSE x.w)[1][Dim + d]
   IN /\ {x.id : x \in S(e.ei)} = DOMAIN el
      /\ \A i \in DOMAIN e.ei : LET x == e.ei[i] IN \A k \in DOMAIN x.v : Near(x.v[k][1], vol[x.id], 3)
      /\ \A i \in DOMAIN e.fi : LET x == e.fi[i]
                                    a == el[x.l[1]]
                                    ar == TLCEval(C!Area(a.co, C!Pick(a.co, Facet(x.l[2]))))
                                IN /\ \A k \in DOMAIN x.v : /\ \A d \in 1..Dim : Near(x.v[k][d], ar[d], 3)
                                                            /\ \A d \in 1..(2 * Dim) : Near(x.v[k][d], x.v[1][d], 3)
                                   /\ (Len(x.r) = 0 <=> Len(x.w) = 0)
                                   /\ \A k \in DOMAIN x.w : \A d \in 1..Dim : Near(x.w[k][d], 0 - ar[d], 3)
                                   /\ \A k \in DOMAIN x.w : \A d \in 1..(2 * Dim) : Near(x.w[k][d], x.w[1][d], 3)
      /\ ~e.deep \/ \A id \in DOMAIN el : \A d \in 1..Dim :
            Near(C!SumOver(Flux(id, "l", d) \cup Flux(id, "r", d), LAMBDA t : Value(t, d)), vol[id], 12)
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ sh = <<>> /\ el = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ sh' = <<>> /\ el' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ CASE e.c = "ref" -> sh' = e.s /\ el' = el /\ ok' = (Len(e.s) = 1 /\ RefOK(e.s[1]))
                      [] e.c = "el" -> sh' = sh /\ el' = [id \in {e.s[i].id : i \in DOMAIN e.s} |-> CHOOSE x \in S(e.s) : x.id = id] /\ ok' = TRUE
                      [] e.c = "ep" -> UNCHANGED <<sh, el>> /\ ok' = \A i \in DOMAIN e.s : ElementOK(e.s[i])
                      [] e.c = "fp" -> UNCHANGED <<sh, el>> /\ ok' = \A i \in DOMAIN e.s : FaceOK(e.s[i])
                      [] e.c = "int" -> UNCHANGED <<sh, el>> /\ ok' = IntOK(e)
TSpec == TInit /\ [][TNext]_<<c, p, ok, sh, el>>
TraceOK == ok
=============================================================================
