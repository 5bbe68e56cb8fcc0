----------------------------- MODULE FluxFacets -----------------------------
(* C34: facets are the common boundaries of two zones, and the boundary of every zone on the outside (zone 0 here). *)
(* The flux of a facet is the sum over its faces, each once, out of the zone with the lower number; outer           *)
(* boundaries come first.  A mesh: fa (faces, each one or two pairs of element and local number), zn (the zone of   *)
(* every element, from 1), names of the zones.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SumOver(S, f(_)) == LET RECURSIVE G(_)
                        G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f(x) + G(T \ {x}) IN G(S)
ElementsOf(m, i) == [k \in DOMAIN m.fa[i] |-> m.fa[i][k][1]]
ZonesOf(m, i) == LET e == ElementsOf(m, i) IN
   IF Len(e) = 1 THEN <<m.zn[e[1]], 0>>
   ELSE IF m.zn[e[1]] <= m.zn[e[2]] THEN <<m.zn[e[1]], m.zn[e[2]]>> ELSE <<m.zn[e[2]], m.zn[e[1]]>>
IsFlux(m, i) == ZonesOf(m, i)[1] # ZonesOf(m, i)[2]
FacesOf(m, z) == {i \in DOMAIN m.fa : IsFlux(m, i) /\ ZonesOf(m, i) = z}
Facets(m) == {ZonesOf(m, i) : i \in {j \in DOMAIN m.fa : IsFlux(m, j)}}
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S \ {y} : Before(y, z) IN <<x>> \o InOrder(S \ {x})
Name(m, z) == IF z[2] = 0 THEN <<m.names[z[1]]>> ELSE <<m.names[z[1]], m.names[z[2]]>>
(* the element a face is seen from, and the other one (0: none) *)
From(m, i) == LET e == ElementsOf(m, i) IN IF Len(e) = 1 \/ m.zn[e[1]] < m.zn[e[2]] THEN e[1] ELSE e[2]
To(m, i) == LET e == ElementsOf(m, i) IN IF Len(e) = 1 THEN 0 ELSE IF From(m, i) = e[1] THEN e[2] ELSE e[1]
(* flux(a, b): through a face out of element a to b *)
Flux(m, z, flux(_, _)) == SumOver(FacesOf(m, z), LAMBDA i : flux(From(m, i), To(m, i)))
=============================================================================
