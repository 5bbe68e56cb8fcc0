--------------------------- MODULE MaxwellFormsMC ---------------------------
(* Two elements with a common facet and Dirichlet conditions around them: the forms are symmetric, the penalty is   *)
(* not negative and vanishes on fields that continue across the facet, and the scheme is consistent: on a field     *)
(* that is linear on both elements together the form is the boundary vector of its tangential values.               *)
EXTENDS MaxwellForms, TLC
CONSTANTS Entries
MCEntries == {0, 1}
MCSigned == {0 - 1, 0, 1}
VARIABLES dim, gu, vl, vr, free
G == INSTANCE FaceGeometry
Co(dm, s) == IF dm = 2 THEN (IF s = 1 THEN <<<<0, 0>>, <<4, 0>>, <<1, 3>>>> ELSE <<<<1, 3>>, <<4, 0>>, <<5, 4>>>>)
             ELSE (IF s = 1 THEN <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<1, 0, 2>>>> ELSE <<<<0, 2, 0>>, <<1, 0, 2>>, <<2, 0, 0>>, <<3, 3, 3>>>>)
Nd(dm, s) == IF dm = 2 THEN (IF s = 1 THEN <<1, 2, 3>> ELSE <<3, 2, 4>>) ELSE (IF s = 1 THEN <<1, 2, 3, 4>> ELSE <<3, 4, 2, 5>>)
Mat(dm, s) == [i \in 1..dm |-> [j \in 1..dm |-> s[dm * (i - 1) + j]]]
(* the forms are bilinear: in three dimensions the fields of a basis are enough *)
Zero3 == [i \in 1..3 |-> [j \in 1..3 |-> 0]]
Fields(dm) == IF dm = 2 THEN {[A |-> Mat(2, a), b |-> <<1, 0>>] : a \in {x \in [1..4 -> Entries] : x[1] = 0 \/ x[4] = 0}}
              ELSE {[A |-> [Zero3 EXCEPT ![x[1]][x[2]] = 1], b |-> <<0, 0, 0>>] : x \in (1..3) \X (1..3)}
                   \cup {[A |-> Zero3, b |-> [i \in 1..3 |-> IF i = k THEN 1 ELSE 0]] : k \in 1..3}
(* the same field, given from the first vertex of element s; gu is given from the origin *)
From(f, co) == [A |-> f.A, b |-> [i \in DOMAIN f.b |-> f.b[i] + G!Dot(f.A[i], co[1])]]
E(s, u, v) == [co |-> Co(dim, s), nd |-> Nd(dim, s), eps |-> 1, mu |-> 1, u |-> u, v |-> v]
None == [b |-> <<>>]
Init == dim \in 2..3 /\ free \in {TRUE, FALSE} /\ gu \in Fields(dim) /\ vl = None /\ vr = None
Next == vl = None /\ vl' \in Fields(dim) /\ vr' \in Fields(dim) /\ UNCHANGED <<dim, gu, free>>
Spec == Init /\ [][Next]_<<dim, gu, vl, vr, free>>
(* numbers of the common facet *)
Common(s) == CHOOSE k \in 0..dim : {Nd(dim, s)[FacetOf(E(s, gu, gu), k)[i] + 1] : i \in 1..dim} = (IF dim = 2 THEN {2, 3} ELSE {2, 3, 4})
Facets(s) == TLCEval((0..dim) \ {Common(s)})
Elem(ul, ur) == <<E(1, ul, vl), E(2, ur, vr)>>
(* all forms times 2 8^(d-2) d! *)
Whole(ul, ur, wl, wr) ==
   LET e == <<E(1, ul, wl), E(2, ur, wr)>>
       f1 == TLCEval(LeftVertices(e[1], Common(1)))
       f2 == TLCEval(RightVertices(e[1], Common(1), e[2], Common(2)))
       n == TLCEval(N(e[1].co, f1))
       ju == TLCEval(Jump(On(ul, e[1].co, f1), On(ur, e[2].co, f2)))
       jv == TLCEval(Jump(On(wl, e[1].co, f1), On(wr, e[2].co, f2)))
       D(s, k) == LET fa == TLCEval(LeftVertices(e[s], k)) IN CouplingD(TLCEval(N(e[s].co, fa)), e[s].u, e[s].v, On(e[s].u, e[s].co, fa), On(e[s].v, e[s].co, fa))
       Sum3(s) == Total([i \in 1..(dim + 1) |-> IF (i - 1) \in Facets(s) THEN D(s, i - 1) ELSE 0])
   IN 2 * Stiffness(e[1]) + 2 * Stiffness(e[2]) + Coupling(n, ul, ur, wl, wr, 1, 1, ju, jv) + 2 * Sum3(1) + 2 * Sum3(2)
Boundary(u1, u2) ==
   LET D(s, u, v, k) == LET co == Co(dim, s)  fa == TLCEval(LeftVertices(E(s, u, v), k)) IN 0 - G!Dot(CrossD(N(co, fa), VecSum(On(u, co, fa))), Curl(v))
       Sum3(s, u, v) == Total([i \in 1..(dim + 1) |-> IF (i - 1) \in Facets(s) THEN D(s, u, v, i - 1) ELSE 0])
   IN 2 * (Sum3(1, u1, vl) + Sum3(2, u2, vr))
U1 == From(gu, Co(dim, 1))
U2 == IF free THEN gu ELSE From(gu, Co(dim, 2))
Symmetric == vl = None \/ Whole(U1, U2, vl, vr) = Whole(vl, vr, U1, U2)
Consistent == vl = None \/ free \/ Whole(U1, U2, vl, vr) = Boundary(U1, U2)
Penalty == vl = None \/ LET e == <<E(1, U1, vl), E(2, U2, vr)>>
               f1 == LeftVertices(e[1], Common(1))
               f2 == RightVertices(e[1], Common(1), e[2], Common(2))
               n == N(e[1].co, f1)
               ju == Jump(On(U1, e[1].co, f1), On(U2, e[2].co, f2))
           IN /\ f1 = f2 /\ Tangential(n, ju, ju) >= 0
              /\ free \/ Tangential(n, ju, ju) = 0
              /\ Pairing(On(U1, e[1].co, f1), On(U1, e[1].co, f1)) >= 0
(* closed surface: the normals add up to zero, and both sides have opposite normals *)
Normals == vl = None \/
           /\ \A s \in 1..2 : VecSum([i \in 1..(dim + 1) |-> N(Co(dim, s), LeftVertices(E(s, gu, gu), i - 1))]) = [d \in 1..dim |-> 0]
           /\ LET a == N(Co(dim, 1), LeftVertices(E(1, gu, gu), Common(1)))
                  b == N(Co(dim, 2), LeftVertices(E(2, gu, gu), Common(2))) IN VecSum(<<a, b>>) = [d \in 1..dim |-> 0]
=============================================================================
