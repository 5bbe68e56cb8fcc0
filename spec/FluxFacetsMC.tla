---------------------------- MODULE FluxFacetsMC ----------------------------
(* Elements in a row or a ring, with all zones and owners: processes that each add up the faces they own get the    *)
(* flux of every facet, and with fluxes that are opposite from both sides what leaves a zone is what leaves its      *)
(* elements.                                                                                                        *)
EXTENDS FluxFacets
CONSTANTS NE, NZ, NP
VARIABLES zn, ow, ring, part, done
Mesh == [zn |-> zn, names |-> [i \in 1..NZ |-> i],
         fa |-> [i \in 1..NE |-> IF i < NE THEN <<<<i, 2>>, <<i + 1, 1>>>> ELSE IF ring THEN <<<<NE, 2>>, <<1, 1>>>> ELSE <<<<NE, 2>>>>]
                \o (IF ring THEN <<>> ELSE << <<<<1, 1>>>> >>)]
Through(a, b) == IF b = 0 THEN a ELSE a * a - b * b
Owner(i) == ow[ElementsOf(Mesh, i)[1]]
Init == zn \in [1..NE -> 1..NZ] /\ ow = [i \in 1..NE |-> 1] /\ ring \in {TRUE, FALSE} /\ part = [z \in {} |-> 0] /\ done = {}
(* one process after the other adds its part *)
Choose == part = [z \in {} |-> 0] /\ done = {} /\ ow' \in [1..NE -> 1..NP] /\ part' = [z \in Facets(Mesh) |-> 0] /\ done' = {0} /\ UNCHANGED <<zn, ring>>
Add == \E q \in (1..NP) \ done : 0 \in done /\ done' = done \cup {q}
          /\ part' = [z \in DOMAIN part |-> part[z] + SumOver({i \in FacesOf(Mesh, z) : Owner(i) = q}, LAMBDA i : Through(From(Mesh, i), To(Mesh, i)))]
          /\ UNCHANGED <<zn, ow, ring>>
Next == Choose \/ Add
Spec == Init /\ [][Next]_<<zn, ow, ring, part, done>>
Together == done = 0..NP => \A z \in DOMAIN part : part[z] = Flux(Mesh, z, Through)
Outflow(q) == SumOver({z \in Facets(Mesh) : q \in {z[1], z[2]}}, LAMBDA z : IF z[1] = q THEN part[z] ELSE 0 - part[z])
Elements(q) == SumOver({<<i, k>> \in (DOMAIN Mesh.fa) \X (1..2) : k \in DOMAIN Mesh.fa[i] /\ zn[ElementsOf(Mesh, i)[k]] = q},
                       LAMBDA x : LET e == ElementsOf(Mesh, x[1]) IN Through(e[x[2]], IF Len(e) = 1 THEN 0 ELSE e[3 - x[2]]))
Balance == done = 0..NP => \A q \in 1..NZ : Outflow(q) = Elements(q)
=============================================================================
