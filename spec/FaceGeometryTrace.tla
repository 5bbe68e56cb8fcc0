-------------------------- MODULE FaceGeometryTrace --------------------------
(* C20: recorded points of elements and faces, normals, Jacobians, and the tables of the reference shapes.   *)
(* Events: ref (shapes), el (elements: identity, nodes, coordinates), ep (points of elements), fp (faces).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, sh, el
G == INSTANCE FaceGeometry
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in DOMAIN q}
Dim == Cases[c].dim
(* ----- reference shapes *)
Down(s) == {x - 1 : x \in s}
RefOK(x) ==
   LET facets == G!FacetTable(Dim, x.nv) IN
   /\ Len(x.co) = x.nv
   /\ Len(x.fa) = Len(facets)
   /\ \A i \in DOMAIN facets :
        LET f == x.fa[i] IN
        /\ f.n = Len(f.v) /\ S(f.v) = Down(facets[i]) /\ Cardinality(S(f.v)) = Len(f.v)
        (* the facet's vertices are mapped to the vertices of the element *)
        /\ f.im = G!Pick(x.co, f.v)
        (* and the facet's edges are edges of the element *)
        /\ Dim = 3 => \A k \in DOMAIN f.sub : {f.v[f.sub[k][j] + 1] : j \in DOMAIN f.sub[k]} \in {Down(g) : g \in S(G!EdgeTable(x.nv))}
        /\ Dim = 3 => {{f.v[f.sub[k][j] + 1] : j \in DOMAIN f.sub[k]} : k \in DOMAIN f.sub} = {Down(g) : g \in {h \in S(G!EdgeTable(x.nv)) : Down(h) \subseteq S(f.v)}}
   /\ Dim = 3 => [i \in DOMAIN x.ed |-> S(x.ed[i])] = [i \in DOMAIN G!EdgeTable(x.nv) |-> Down(G!EdgeTable(x.nv)[i])]
   (* the reference vertices are where the interpolation says *)
   /\ \A v \in 1..x.nv : ~(x.nv = 5 /\ v = 1) => \A w \in 1..x.nv :
        G!Weight(Dim, x.nv, w, G!Times(4, x.co[v])) = (IF v = w THEN 512 ELSE 0)
(* ----- points of elements *)
El(id) == el[id]
ElementOK(x) == LET e == El(x.id) IN
   \A i \in DOMAIN x.p : LET t == x.p[i] IN
      /\ t.x = G!PointOf(Dim, e.co, t.q)
      /\ t.j = G!JacobianOf(Dim, e.co, t.q)
      /\ \A d \in DOMAIN t.q : t.b[d] - 10000 * t.q[d] \in (0 - 2)..2
      /\ t.in
(* ----- faces *)
Facet(e, k) == (CHOOSE x \in S(sh) : x.nv = Len(e.co)).fa[k + 1].v
FaceOK(x) ==
   LET a == El(x.l[1])
       f == Facet(a, x.l[2])
   IN /\ x.nv = Len(f)
      /\ \A i \in DOMAIN x.p : LET t == x.p[i] IN
           /\ t.x = G!OnFacet(Dim, a.co, f, t.q)
           /\ t.L = t.x
           (* (the mapping of a pyramid has no derivative at the apex) *)
           /\ (Len(a.co) = 5 /\ \E k \in DOMAIN f : f[k] = 0 /\ G!Weight(Dim - 1, Len(f), k, t.q) = 512) \/ t.n = G!Normal(a.co, G!Pick(a.co, f), t.q)
      /\ Len(x.r) = 0 \/
         LET b == El(x.r[1])
             g == Facet(b, x.r[2])
             same == Len(g) = Len(f) /\ {a.nd[f[k] + 1] : k \in DOMAIN f} = {b.nd[g[k] + 1] : k \in DOMAIN g}
         IN /\ same
            /\ LET m == G!Matched(a.nd, f, b.nd, g)
               IN \A i \in DOMAIN x.p : LET t == x.p[i] IN
                    /\ t.R = G!OtherSide(Dim, b.co, g, m, t.q)
                    /\ G!Sub(t.R, t.L) = G!Sub(x.p[1].R, x.p[1].L)
                    /\ x.per \/ t.R = t.L
                    /\ t.L2 = t.L /\ t.R2 = t.R
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ sh = <<>> /\ el = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ sh' = <<>> /\ el' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ CASE e.c = "ref" -> sh' = e.s /\ el' = el /\ ok' = \A i \in DOMAIN e.s : RefOK(e.s[i])
                      [] e.c = "el" -> sh' = sh /\ el' = [id \in {e.s[i].id : i \in DOMAIN e.s} |-> CHOOSE x \in S(e.s) : x.id = id] /\ ok' = TRUE
                      [] e.c = "ep" -> UNCHANGED <<sh, el>> /\ ok' = \A i \in DOMAIN e.s : ElementOK(e.s[i])
                      [] e.c = "fp" -> UNCHANGED <<sh, el>> /\ ok' = \A i \in DOMAIN e.s : FaceOK(e.s[i])
TSpec == TInit /\ [][TNext]_<<c, p, ok, sh, el>>
TraceOK == ok
=============================================================================
