----------------------------- MODULE Structured -----------------------------
(* What a generated mesh of a box has to satisfy. q.n = cells per direction, q.per = periodic (1/0),        *)
(* q.lo, q.h = lower corner and cell size, q.tri = split into simplices.                                    *)
EXTENDS PrepMesh, FiniteSetsExt
Dir(q) == DOMAIN q.n
Hi(q, k) == q.lo[k] + q.n[k] * q.h[k]
Wrap(q, x) == [k \in Dir(q) |-> IF q.per[k] = 1 /\ x[k] = Hi(q, k) THEN q.lo[k] ELSE x[k]]
OnGrid(q, x) == \A k \in Dir(q) : x[k] >= q.lo[k] /\ x[k] <= Hi(q, k) /\ (x[k] - q.lo[k]) % q.h[k] = 0
Prod(f) == LET R[i \in 0..Len(f)] == IF i = 0 THEN 1 ELSE f[i] * R[i - 1] IN R[Len(f)]
Low(V) == LET x == CHOOSE y \in V : TRUE IN [k \in DOMAIN x |-> Min({y[k] : y \in V})]
High(V) == LET x == CHOOSE y \in V : TRUE IN [k \in DOMAIN x |-> Max({y[k] : y \in V})]
Abs(a) == IF a < 0 THEN -a ELSE a
Det(a) == CASE Len(a) = 2 -> a[1][1] * a[2][2] - a[1][2] * a[2][1]
            [] Len(a) = 3 -> (a[1][1] * (a[2][2] * a[3][3] - a[2][3] * a[3][2]) - a[1][2] * (a[2][1] * a[3][3] - a[2][3] * a[3][1]))
                             + a[1][3] * (a[2][1] * a[3][2] - a[2][2] * a[3][1])
Vol(q, V) == Abs(Det([i \in Dir(q) |-> [k \in Dir(q) |-> V[i + 1][k] - V[1][k]]]))
PerCell(q) == IF q.tri = 0 THEN 1 ELSE IF Len(q.n) = 2 THEN 2 ELSE 5
(* every cell is one box, or is filled by the right number of simplices *)
Tiles(q, G) ==
   /\ Len(G) = Prod(q.n) * PerCell(q)
   /\ \A e \in DOMAIN G : LET V == Ran(G[e]) IN
        /\ \A x \in V : OnGrid(q, x)
        /\ Cardinality(V) = Len(G[e]) /\ Len(G[e]) = IF q.tri = 1 THEN Len(q.n) + 1 ELSE 2 ^ Len(q.n)
        /\ \A k \in Dir(q) : High(V)[k] - Low(V)[k] = q.h[k]
        /\ (q.tri = 1) => Vol(q, G[e]) > 0
        /\ (q.tri = 0) => \A f \in DOMAIN FacetTable(Len(q.n), Len(G[e])) : \E k \in Dir(q) :
                              Cardinality({G[e][v][k] : v \in FacetTable(Len(q.n), Len(G[e]))[f]}) = 1
   /\ LET cells == {Low(Ran(G[e])) : e \in DOMAIN G} IN
      /\ Cardinality(cells) = Prod(q.n)
      /\ \A x \in cells : LET here == {e \in DOMAIN G : Low(Ran(G[e])) = x} IN
            /\ Cardinality(here) = PerCell(q)
            /\ (q.tri = 1) => MapThenSumSet(LAMBDA e : Vol(q, G[e]), here)
                              = Prod(q.h) * (IF Len(q.n) = 2 THEN 2 ELSE 6)
(* entities of dimension d are shared exactly by the elements that meet there *)
Shared(q, m, d) ==
   LET U == Uses(m, d)
       key == [u \in U |-> {Wrap(q, x) : x \in PointsOf(m, d, u)}]
       prs == {<<IdOf(m, d, u), key[u]>> : u \in U} IN
   /\ Cardinality(prs) = Cardinality({x[1] : x \in prs}) /\ Cardinality(prs) = Cardinality({x[2] : x \in prs})
   /\ \A u \in U : Cardinality(key[u]) = Cardinality(Loc(m, u[1], d)[u[2]])
OnWall(q, P) == \E k \in Dir(q) : q.per[k] = 0 /\ ((\A x \in P : x[k] = q.lo[k]) \/ (\A x \in P : x[k] = Hi(q, k)))
Conforming(q, m) ==
   /\ \A d \in 0..(m.dim - 1) : Shared(q, m, d)
   /\ \A k \in DOMAIN m.en[m.dim] : LET s == m.en[m.dim][k] IN
        Len(s) = IF s # <<>> /\ OnWall(q, PointsOf(m, m.dim - 1, s[1])) THEN 1 ELSE 2
MeshOK(q, m) == m.dim = Len(q.n) /\ Consistent(m) /\ Tiles(q, Geometry(m)) /\ Conforming(q, m)
=============================================================================
