------------------------------ MODULE PrepMesh ------------------------------
(* Meshes as the Preprocessor holds them, and the operations on them.                                       *)
(* m.co[c] = [n |-> node, x |-> coordinate], m.el[e] = [c |-> coordinate ids, z |-> zone,                   *)
(* s |-> per dimension the ids of the element's entities], m.en[d + 1][id] = the (element, local) pairs.    *)
EXTENDS Integers, Sequences, FiniteSets, Polytopes
Ran(s) == {s[i] : i \in DOMAIN s}
Nv(m, e) == Len(m.el[e].c)
Loc(m, e, d) == Entities(m.dim, Nv(m, e), d)
(* all uses of d-dimensional entities by elements *)
Uses(m, d) == UNION {{<<e, l>> : l \in DOMAIN Loc(m, e, d)} : e \in DOMAIN m.el}
IdOf(m, d, u) == m.el[u[1]].s[d + 1][u[2]]
CoordsOf(m, d, u) == {m.el[u[1]].c[v] : v \in Loc(m, u[1], d)[u[2]]}        \* coordinate ids
PointsOf(m, d, u) == {m.co[c].x : c \in CoordsOf(m, d, u)}
(* every element lists its entities, every entity its elements, and they agree; nodes follow the coordinates *)
Consistent(m) ==
   /\ \A e \in DOMAIN m.el : /\ Nv(m, e) \in Shapes(m.dim) /\ Len(m.el[e].s) = m.dim
                             /\ \A c \in Ran(m.el[e].c) : c \in DOMAIN m.co
                             /\ \A d \in 0..(m.dim - 1) : DOMAIN m.el[e].s[d + 1] = DOMAIN Loc(m, e, d)
   /\ Len(m.en) = m.dim
   /\ \A d \in 0..(m.dim - 1) :
        /\ \A u \in Uses(m, d) : IdOf(m, d, u) \in DOMAIN m.en[d + 1] /\ \E i \in DOMAIN m.en[d + 1][IdOf(m, d, u)] : m.en[d + 1][IdOf(m, d, u)][i] = u
        /\ \A k \in DOMAIN m.en[d + 1] : LET s == m.en[d + 1][k] IN
             /\ \A i \in DOMAIN s : s[i] \in Uses(m, d) /\ IdOf(m, d, s[i]) = k
             /\ Cardinality(Ran(s)) = Len(s)
   /\ \A e \in DOMAIN m.el : \A v \in DOMAIN m.el[e].c : m.co[m.el[e].c[v]].n = m.el[e].s[1][v]
(* as built from a list of elements: entities are shared by the elements that have the same vertices there *)
NodesOfUse(m, d, u) == {m.el[u[1]].s[1][v] : v \in Loc(m, u[1], d)[u[2]]}
SharedByVertices(m) == \A d \in 1..(m.dim - 1) : \A k \in DOMAIN m.en[d + 1] :
                          /\ Cardinality({NodesOfUse(m, d, u) : u \in Ran(m.en[d + 1][k])}) <= 1
                          /\ \A j \in DOMAIN m.en[d + 1] : (j # k /\ m.en[d + 1][j] # <<>> /\ m.en[d + 1][k] # <<>>) =>
                                NodesOfUse(m, d, m.en[d + 1][j][1]) # NodesOfUse(m, d, m.en[d + 1][k][1])
Geometry(m) == [e \in DOMAIN m.el |-> [v \in DOMAIN m.el[e].c |-> m.co[m.el[e].c[v]].x]]
Zones(m) == [e \in DOMAIN m.el |-> m.el[e].z]
(* the uses, grouped by entity: the part of a mesh that does not depend on how entities are numbered *)
Classes(m, d) == {Ran(m.en[d + 1][k]) : k \in DOMAIN m.en[d + 1]} \ {{}}
Same(m1, m2) == Geometry(m1) = Geometry(m2) /\ Zones(m1) = Zones(m2) /\ \A d \in 0..(m1.dim - 1) : Classes(m1, d) = Classes(m2, d)

(* Merging. pr = a sequence of pairs of coordinate ids, the left ones all different. *)
RECURSIVE Closure(_)                             \* groups connected by links (a set of sets)
Closure(S) == LET hit == {p \in S \X S : p[1] # p[2] /\ p[1] \cap p[2] # {}} IN
              IF hit = {} THEN S
              ELSE LET p == CHOOSE q \in hit : TRUE
                       all == {x \in S : x \cap (p[1] \cup p[2]) # {}} IN Closure((S \ all) \cup {UNION all})
Links(m, pr, d) ==                               \* pairs of entities whose vertices correspond
   IF d = 0 THEN {{m.co[pr[i][1]].n, m.co[pr[i][2]].n} : i \in DOMAIN pr}
   ELSE LET dom == {pr[i][1] : i \in DOMAIN pr}
            rng == {pr[i][2] : i \in DOMAIN pr}
            to  == [c \in dom |-> pr[CHOOSE i \in DOMAIN pr : pr[i][1] = c][2]]
            L == {u \in Uses(m, d) : CoordsOf(m, d, u) \subseteq dom}
            R == {u \in Uses(m, d) : CoordsOf(m, d, u) \subseteq rng}
            img == [u \in L |-> {to[c] : c \in CoordsOf(m, d, u)}]
            rc == [w \in R |-> CoordsOf(m, d, w)] IN
        UNION {{{IdOf(m, d, u), IdOf(m, d, w)} : w \in {x \in R : rc[x] = img[u]}} : u \in L}
Groups(m, pr, d) == Closure({g \in Links(m, pr, d) : Cardinality(g) > 1})
(* the classes after merging the groups of entities g *)
Merged(m, d, g) == {Ran(m.en[d + 1][k]) : k \in DOMAIN m.en[d + 1] \ UNION g}
                   \cup {UNION {Ran(m.en[d + 1][k]) : k \in x} : x \in g}
MergeOK(m, m2, pr) ==
   /\ Consistent(m2) /\ Geometry(m2) = Geometry(m) /\ Zones(m2) = Zones(m)
   /\ [e \in DOMAIN m2.el |-> m2.el[e].c] = [e \in DOMAIN m.el |-> m.el[e].c]
   /\ \A d \in 0..(m.dim - 1) : Classes(m2, d) = Merged(m, d, Groups(m, pr, d)) \ {{}}
(* translations identify boundary coordinates that differ by the vector t *)
Boundary(m) == UNION {CoordsOf(m, m.dim - 1, m.en[m.dim][k][1]) : k \in {j \in DOMAIN m.en[m.dim] : Len(m.en[m.dim][j]) = 1}}
Shift(x, t) == [i \in DOMAIN x |-> x[i] + t[i]]
Pairs(m, t) == {p \in Boundary(m) \X Boundary(m) : Shift(m.co[p[1]].x, t) = m.co[p[2]].x}
=============================================================================
