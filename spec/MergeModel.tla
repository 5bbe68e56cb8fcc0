----------------------------- MODULE MergeModel -----------------------------
(* Merging on small meshes: any sequence of pairings. Nodes are shared exactly by chained coordinates, the  *)
(* elements keep their geometry, and every state is consistent.                                             *)
EXTENDS PrepMesh, TLC
CONSTANTS Steps, MaxPairs, Which
VARIABLES m, done, k
vars == <<m, done, k>>
Seg(n) == [dim |-> 1, co |-> [i \in 1..(n + 1) |-> [n |-> i, x |-> <<i>>]],
           el |-> [e \in 1..n |-> [c |-> <<e, e + 1>>, z |-> "z", s |-> <<<<e, e + 1>>>>]],
           en |-> <<[i \in 1..(n + 1) |-> (IF i > 1 THEN <<<<i - 1, 2>>>> ELSE <<>>) \o (IF i <= n THEN <<<<i, 1>>>> ELSE <<>>)]>>]
(* two squares side by side: coordinates 1 2 3 / 4 5 6 *)
Two == [dim |-> 2, co |-> [i \in 1..6 |-> [n |-> i, x |-> <<(i - 1) % 3, (i - 1) \div 3>>]],
        el |-> <<[c |-> <<1,2,4,5>>, z |-> "z", s |-> <<<<1,2,4,5>>, <<1,2,3,4>>>>], [c |-> <<2,3,5,6>>, z |-> "z", s |-> <<<<2,3,5,6>>, <<5,3,6,7>>>>]>>,
        en |-> <<<<<<<<1,1>>>>, <<<<1,2>>, <<2,1>>>>, <<<<2,2>>>>, <<<<1,3>>>>, <<<<1,4>>, <<2,3>>>>, <<<<2,4>>>>>>,
                 <<<<<<1,1>>>>, <<<<1,2>>>>, <<<<1,3>>, <<2,2>>>>, <<<<1,4>>>>, <<<<2,1>>>>, <<<<2,3>>>>, <<<<2,4>>>>>>>>]
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Order(S \ {x})
Apply(x, pr) ==
   LET g(d) == Groups(x, pr, d)
       to(d, id) == IF \E s \in g(d) : id \in s THEN LET s == CHOOSE t \in g(d) : id \in t IN CHOOSE a \in s : \A b \in s : a <= b ELSE id IN
   [dim |-> x.dim,
    co |-> [c \in DOMAIN x.co |-> [n |-> to(0, x.co[c].n), x |-> x.co[c].x]],
    el |-> [e \in DOMAIN x.el |-> [x.el[e] EXCEPT !.s = [d \in DOMAIN x.el[e].s |-> [l \in DOMAIN x.el[e].s[d] |-> to(d - 1, x.el[e].s[d][l])]]]],
    en |-> [d \in DOMAIN x.en |-> [id \in DOMAIN x.en[d] |-> Order(UNION {Ran(x.en[d][j]) : j \in {i \in DOMAIN x.en[d] : to(d - 1, i) = id}})]]]
Coords == DOMAIN m.co
Pairings == UNION {{[i \in 1..n |-> <<f[i], g[i]>>] : f \in {h \in [1..n -> Coords] : \A i, j \in 1..n : i < j => h[i] < h[j]}, g \in [1..n -> Coords]} : n \in 0..MaxPairs}
Allowed(pr) == \A d \in 1..(m.dim - 1) : \A u \in Uses(m, d) :          \* no entity collapses
                 LET C == CoordsOf(m, d, u) IN
                 (C \subseteq {pr[i][1] : i \in DOMAIN pr}) => Cardinality({pr[i][2] : i \in {j \in DOMAIN pr : pr[j][1] \in C}}) = Cardinality(C)
Init == m \in (IF Which = 1 THEN {Seg(1), Seg(2), Seg(3)} ELSE {Two}) /\ done = {} /\ k = 0
Next == /\ k < Steps
        /\ \E pr \in Pairings : /\ Allowed(pr) /\ m' = Apply(m, pr) /\ done' = done \cup {{pr[i][1], pr[i][2]} : i \in DOMAIN pr}
                                /\ Assert(MergeOK(m, m', pr), "merge relation")
        /\ k' = k + 1
Spec == Init /\ [][Next]_vars
Sound == Consistent(m)
NodesAreChains == LET g == Closure({{c} : c \in Coords} \cup done) IN
                  \A a, b \in Coords : (m.co[a].n = m.co[b].n) <=> (\E s \in g : a \in s /\ b \in s)
=============================================================================
