----------------------------- MODULE BasisTrace ------------------------------
(* C21, C22: recorded layouts and traces of basis functions.                                                 *)
(* Events: op (an assignment), layout (functions per element and entity), whose (which function of the       *)
(* default sets each local function is), trace (values on both sides of the faces, times 1e5).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, b, lay
B == INSTANCE BasisLayout WITH Unknowns <- {}, Dgs <- {}, Confs <- {}, Monos <- {}, MaxOps <- 0, hist <- <<>>
P == INSTANCE Polytopes
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
Dim == Cases[c].dim
S(q) == {q[i] : i \in DOMAIN q}
Sum(s) == LET RECURSIVE T(_)
              T(i) == IF i = 0 THEN 0 ELSE s[i] + T(i - 1) IN T(Len(s))
Counts(list) == [id \in {list[i][1] : i \in DOMAIN list} |-> (CHOOSE x \in S(list) : x[1] = id)[2]]
(* the entities of an element: type, local number, identity, functions, offset *)
Entities(L, x, u) ==
   LET t == x.u[u] IN
   [i \in DOMAIN x.fa |-> <<1, i - 1, x.fa[i], L.face[x.fa[i]][u], t.fo[i]>>]
   \o [i \in DOMAIN x.ed |-> <<2, i - 1, x.ed[i], L.edge[x.ed[i]][u], t.eo[i]>>]
   \o [i \in DOMAIN x.nd |-> <<3, i - 1, x.nd[i], L.node[x.nd[i]][u], t.no[i]>>]
(* owner of every local function: <<type, local number, identity, number within the entity>> *)
Owner(L, x, u, j) ==
   IF j < x.u[u].i THEN <<0, 0, x.id, j>>
   ELSE LET es == Entities(L, x, u)
            k == CHOOSE k \in DOMAIN es : es[k][5] <= j /\ j < es[k][5] + es[k][4]
        IN <<es[k][1], es[k][2], es[k][3], j - es[k][5]>>
Nv(x) == P!Straight(Dim, x.nv)
FacetSize(x, i) == Cardinality(P!FacetTable(Dim, Nv(x))[i])
ElementOK(L, x) ==
   /\ Len(x.u) = Cases[c].nu
   /\ x.tl = Sum([u \in DOMAIN x.u |-> x.u[u].i])
   /\ x.tot = Sum([u \in DOMAIN x.u |-> x.u[u].n])
   /\ \A u \in DOMAIN x.u :
        LET t == x.u[u]
            es == Entities(L, x, u)
            bb == b[u - 1]
        IN /\ t.n = B!Functions(Dim, Nv(x), bb)
           /\ t.i = B!Interior(Dim, Nv(x), bb)
           /\ \A i \in DOMAIN x.fa : L.face[x.fa[i]][u] = B!OnEntity(bb, Dim - 1, FacetSize(x, i))
           /\ Dim = 3 => \A i \in DOMAIN x.ed : L.edge[x.ed[i]][u] = B!OnEntity(bb, 1, 2)
           /\ Dim > 1 => \A i \in DOMAIN x.nd : L.node[x.nd[i]][u] = (IF i \in P!Vertices(Dim, x.nv) THEN B!OnEntity(bb, 0, 1) ELSE 0)
           (* every number belongs to exactly one entity *)
           /\ t.n = t.i + Sum([k \in DOMAIN es |-> es[k][4]])
           /\ (0..(t.i - 1)) \cup UNION {es[k][5]..(es[k][5] + es[k][4] - 1) : k \in DOMAIN es} = 0..(t.n - 1)
           /\ \A k \in DOMAIN x.fa : L.face[x.fa[k]][u] > 0 => t.fo2[k] = t.fo[k]
           /\ \A k \in DOMAIN x.ed : L.edge[x.ed[k]][u] > 0 => t.eo2[k] = t.eo[k]
           /\ \A k \in DOMAIN x.nd : L.node[x.nd[k]][u] > 0 => t.no2[k] = t.no[k]
Layout(e) == [el |-> [id \in {e.el[i].id : i \in DOMAIN e.el} |-> CHOOSE x \in S(e.el) : x.id = id],
              face |-> Counts(e.face), edge |-> Counts(e.edge), node |-> Counts(e.node)]
(* every local function is the function of its entity that the numbering says *)
WhoseOK(e) == \A i \in DOMAIN e.w :
   LET x == lay.el[e.w[i][1]]
       f == e.w[i][2]
   IN /\ Len(f) = x.u[e.u + 1].n
      /\ \A j \in DOMAIN f : LET o == Owner(lay, x, e.u + 1, j - 1) IN <<o[1], o[2], o[4]>> \in S(f[j])
(* continuity: functions of the same entity agree on a face, all others vanish there *)
Near(a, d) == a - d \in (0 - 3)..3
FaceOK(u, f) ==
   LET Keys(id) == [j \in 1..lay.el[id].u[u].n |-> LET o == Owner(lay, lay.el[id], u, j - 1) IN <<o[1], o[3], o[4]>>]
       kl == TLCEval(Keys(f.l))
       kr == TLCEval(Keys(f.r))
       At(ks, v, k) == Sum([j \in DOMAIN ks |-> IF ks[j] = k THEN v[j] ELSE 0])
       all == S(kl) \cup S(kr)
       both == {k \in all : k[1] > 0 /\ k \in S(kl) /\ k \in S(kr)}
       rest(ks, v) == \A j \in DOMAIN ks : ks[j] \in both \/ Near(v[j], 0)
   IN \A q \in DOMAIN f.v :
        /\ Len(f.v[q][1]) = Len(kl) /\ Len(f.v[q][2]) = Len(kr)
        /\ \A k \in both : Near(At(kl, f.v[q][1], k), At(kr, f.v[q][2], k))
        /\ rest(kl, f.v[q][1]) /\ rest(kr, f.v[q][2])
        (* the functions of the nodes add up to one *)
        /\ LET One(ks, v) == Sum([j \in DOMAIN ks |-> IF ks[j][1] = (IF Dim = 1 THEN 1 ELSE 3) THEN v[j] ELSE 0])
           IN Near(One(kl, f.v[q][1]), 100000) /\ Near(One(kr, f.v[q][2]), 100000)
Start == [u \in 0..(Cases[c].nu - 1) |-> B!None]
TInit == c \in 1..K /\ p = 0 /\ ok = TRUE /\ b = <<>> /\ lay = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p = 0 THEN p' = 1 /\ c' = c /\ ok' = TRUE /\ b' = Start /\ lay' = <<>>
            ELSE IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 0 /\ ok' = TRUE /\ b' = <<>> /\ lay' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ CASE e.c = "op" -> b' = B!Apply(b, e) /\ lay' = lay /\ ok' = TRUE
                      [] e.c = "layout" -> b' = b /\ lay' = Layout(e) /\ ok' = \A i \in DOMAIN e.el : ElementOK(lay', e.el[i])
                      [] e.c = "whose" -> UNCHANGED <<b, lay>> /\ ok' = WhoseOK(e)
                      [] e.c = "trace" -> UNCHANGED <<b, lay>> /\ ok' = (b[e.u].k # "conf" \/ \A i \in DOMAIN e.fc : FaceOK(e.u + 1, e.fc[i]))
TSpec == TInit /\ [][TNext]_<<c, p, ok, b, lay>>
TraceOK == ok
=============================================================================
