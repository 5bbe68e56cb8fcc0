---------------------------- MODULE BasisLayoutMC ----------------------------
EXTENDS BasisLayout, Polytopes, TLC, Json
Emit == (Len(hist) = MaxOps => PrintT(<<"H", ToJson(hist)>>))
Dims == 1..3
Facets(d, n) == [i \in DOMAIN FacetTable(d, n) |-> Cardinality(FacetTable(d, n)[i])]
Sum(s) == LET RECURSIVE T(_)
              T(i) == IF i = 0 THEN 0 ELSE s[i] + T(i - 1) IN T(Len(s))
(* the functions of all entities together span the same space as the discontinuous basis *)
Adds(d, n, x) == Interior(d, n, x)
   + Sum([i \in DOMAIN Facets(d, n) |-> OnEntity(x, d - 1, Facets(d, n)[i])])
   + (IF d = 3 THEN Len(EdgeTable(n)) * OnEntity(x, 1, 2) ELSE 0)
   + (IF d > 1 THEN n * OnEntity(x, 0, 1) ELSE 0)
Complete == \A d \in Dims : \A n \in Shapes(d) : \A u \in Unknowns :
   (n = 5 /\ d = 3 /\ b[u].p > 1) \/ Adds(d, n, b[u]) = Functions(d, n, b[u])
(* an operation on one unknown leaves the others as they were *)
Alone == [][\A o \in {hist'[Len(hist')]} : o.op = "one" => \A u \in Unknowns \ {o.u} : b'[u] = b[u]]_<<b, hist>>
View == b
=============================================================================
