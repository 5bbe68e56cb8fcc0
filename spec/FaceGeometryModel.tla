-------------------------- MODULE FaceGeometryModel --------------------------
(* The reference shapes are interpolated consistently: on every facet, with its vertices taken in any order   *)
(* that keeps its edges, the interpolation of the facet is that of the element; hence neighbours whose facets *)
(* have the same vertices agree on every point, whatever their numbering.                                     *)
EXTENDS FaceGeometry, TLC
VARIABLES dim, n, f, q
RefCo(d, m) ==
   CASE m = 2 ^ d /\ (d # 3 \/ m = 8) -> [v \in 1..m |-> [k \in 1..d |-> Sign(v, k - 1)]]
     [] m = d + 1 /\ d > 1 -> [v \in 1..m |-> [k \in 1..d |-> IF v = k + 1 THEN 1 ELSE 0]]
     [] m = 6 -> [v \in 1..6 |-> LET t == ((v - 1) % 3) + 1 IN <<IF t = 2 THEN 1 ELSE 0, IF t = 3 THEN 1 ELSE 0, IF v <= 3 THEN 0 - 1 ELSE 1>>]
     [] m = 5 -> <<<<0, 0, 1>>, <<0 - 1, 0 - 1, 0>>, <<1, 0 - 1, 0>>, <<0 - 1, 1, 0>>, <<1, 1, 0>>>>
Range(s) == {s[i] : i \in DOMAIN s}
EdgesOf(d, m) == IF d = 3 THEN Range(EdgeTable(m)) ELSE IF d = 2 THEN Range(FacetTable(2, m)) ELSE {}
Orders(s) == {o \in [1..Cardinality(s) -> s] : Range(o) = s}
Fits(d, m, o) == Len(o) # 4 \/ \A e \in {<<1, 2>>, <<1, 3>>, <<2, 4>>, <<3, 4>>} : {o[e[1]], o[e[2]]} \in EdgesOf(d, m)
FacetPoints(k) ==     \* k: vertices of the facet
   CASE k = 1 -> {<<>>}
     [] k = 2 -> {<<x>> : x \in (0 - 4)..4}
     [] k = 3 -> {<<x, y>> : x \in 0..4, y \in 0..4}
     [] k = 4 -> {<<x, y>> : x \in (0 - 4)..4, y \in (0 - 4)..4}
Inside(k, x) == k # 3 \/ x[1] + x[2] <= 4
Init == /\ dim \in 1..3 /\ n \in Shapes(dim)
        /\ \E s \in Range(FacetTable(dim, n)) : f \in {o \in Orders(s) : Fits(dim, n, o)}
        /\ q \in {x \in FacetPoints(Len(f)) : Inside(Len(f), x)}
Next == UNCHANGED <<dim, n, f, q>>
Spec == Init /\ [][Next]_<<dim, n, f, q>>
Co == RefCo(dim, n)
(* image in quarters: the sum of weights/512 times reference coordinate times four *)
Total(s) == LET RECURSIVE T(_)
                T(i) == IF i = 0 THEN 0 ELSE s[i] + T(i - 1) IN T(Len(s))
Image == [k \in 1..dim |-> Total([j \in DOMAIN f |-> Weight(dim - 1, Len(f), j, q) * Co[f[j]][k]]) \div 128]
Exact == (n # 5 \/ (4 - Image[3]) \in {0, 1, 2, 4}) /\ \A k \in 1..dim : Total([j \in DOMAIN f |-> Weight(dim - 1, Len(f), j, q) * Co[f[j]][k]]) % 128 = 0
Consistent == ~Exact \/ (n = 5 /\ Image[dim] = 4) \/
              \A v \in 1..n : Weight(dim, n, v, Image) = (IF v \in Range(f) THEN Weight(dim - 1, Len(f), CHOOSE j \in DOMAIN f : f[j] = v, q) ELSE 0)
Partition == ~Exact \/ (n = 5 /\ Image[dim] = 4) \/
             (/\ Total([v \in 1..n |-> Weight(dim, n, v, Image)]) = 512
              /\ \A d \in 0..(dim - 1) : Total([v \in 1..n |-> Slope(dim, n, v, Image, d)]) = 0)
(* outward normals, for the reference shape itself (coordinates times eight) *)
Big == [v \in DOMAIN Co |-> Times(8, Co[v])]
Outward == dim = 1 \/ Dot(Normal(Big, [j \in DOMAIN f |-> Big[f[j]]], q), OutOf(Co, [j \in DOMAIN f |-> Co[f[j]]])) > 0
=============================================================================
