---------------------------- MODULE FaceGeometry ----------------------------
(* C20: where points of the reference shapes lie.  Reference coordinates are given in quarters, vertex       *)
(* coordinates as integers (eighths of a physical unit).  Every shape is interpolated from its vertices; the *)
(* facets of a shape are themselves interpolated from the vertices of the facet, so two elements that share  *)
(* a facet's vertices agree on every one of its points.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, Polytopes
LOCAL Sum2(s) == LET RECURSIVE G(_)
                     G(i) == IF i = 0 THEN 0 ELSE s[i] + G(i - 1) IN G(Len(s))
(* bit d (from 0) of the vertex number v (from 1), as sign *)
Sign(v, d) == IF ((v - 1) \div (2 ^ d)) % 2 = 0 THEN 0 - 1 ELSE 1
(* weights of the vertices at q (quarters), and the derivative to reference coordinate d.  Denominator: Den *)
CubeWeight(dim, v, q) == LET F(d) == 4 + Sign(v, d) * q[d + 1] IN
   CASE dim = 1 -> F(0) [] dim = 2 -> F(0) * F(1) [] dim = 3 -> F(0) * F(1) * F(2)
CubeDen(dim) == 8 ^ dim
(* times 4 / 8^dim : the derivative to xi_d *)
CubeSlope(dim, v, q, d) == LET F(k) == IF k = d THEN Sign(v, d) ELSE 4 + Sign(v, k) * q[k + 1] IN
   CASE dim = 1 -> F(0) [] dim = 2 -> F(0) * F(1) [] dim = 3 -> F(0) * F(1) * F(2)
(* all weights over 512, all slopes over 128 *)
Weight(dim, n, v, q) ==
   CASE n = 1 -> 512
     [] n = 2 ^ dim /\ n > 1 /\ ~(dim = 3 /\ n # 8) /\ ~(dim = 2 /\ n # 4) -> CubeWeight(dim, v, q) * (512 \div CubeDen(dim))
     [] n = dim + 1 /\ n > 2 -> 128 * (IF v = 1 THEN 4 - Sum2(q) ELSE q[v - 1])
     (* prism: triangle times line *)
     [] n = 6 -> 16 * (LET t == ((v - 1) % 3) + 1 IN IF t = 1 THEN 4 - q[1] - q[2] ELSE q[t - 1])
                    * (IF v <= 3 THEN 4 - q[3] ELSE 4 + q[3])
     (* pyramid: the apex is vertex 1; the base vertices scaled by the distance to the apex *)
     [] n = 5 -> IF v = 1 THEN 128 * q[3]
                 ELSE LET s == 4 - q[3] IN (32 * (s + Sign(v - 1, 0) * q[1]) * (s + Sign(v - 1, 1) * q[2])) \div s
Slope(dim, n, v, q, d) ==
   CASE n = 2 ^ dim -> CubeSlope(dim, v, q, d) * (512 \div CubeDen(dim))
     [] n = dim + 1 -> 128 * (IF v = 1 THEN 0 - 1 ELSE IF v = d + 2 THEN 1 ELSE 0)
     [] n = 6 -> LET t == ((v - 1) % 3) + 1
                     tri == IF t = 1 THEN 4 - q[1] - q[2] ELSE q[t - 1]
                 IN IF d = 2 THEN 16 * tri * (IF v <= 3 THEN 0 - 1 ELSE 1)
                    ELSE 16 * (IF t = 1 THEN 0 - 1 ELSE IF t = d + 2 THEN 1 ELSE 0) * (IF v <= 3 THEN 4 - q[3] ELSE 4 + q[3])
     [] n = 5 -> LET s == 4 - q[3] IN
                 IF v = 1 THEN (IF d = 2 THEN 128 ELSE 0)
                 ELSE CASE d = 0 -> (32 * Sign(v - 1, 0) * (s + Sign(v - 1, 1) * q[2])) \div s
                        [] d = 1 -> (32 * Sign(v - 1, 1) * (s + Sign(v - 1, 0) * q[1])) \div s
                        [] d = 2 -> (32 * (Sign(v - 1, 0) * Sign(v - 1, 1) * q[1] * q[2] - s * s)) \div (s * s)
(* physical point times 4096, for vertex coordinates co (eighths) *)
PointOf(dim, co, q) == LET n == Len(co) IN
   [d \in 1..Len(co[1]) |-> Sum2([v \in 1..n |-> Weight(dim, n, v, q) * co[v][d]])]
(* Jacobian times 1024: rows are physical coordinates *)
JacobianOf(dim, co, q) == LET n == Len(co) IN
   [k \in 1..(dim * dim) |-> LET i == ((k - 1) \div dim) + 1  d == (k - 1) % dim
                             IN Sum2([v \in 1..n |-> Slope(dim, n, v, q, d) * co[v][i]])]
(* tangents of a facet of a dim-dimensional element with vertices co, over 16 *)
Sub(a, b) == [d \in DOMAIN a |-> a[d] - b[d]]
Add(a, b) == [d \in DOMAIN a |-> a[d] + b[d]]
Times(k, a) == [d \in DOMAIN a |-> k * a[d]]
Dot(a, b) == Sum2([d \in DOMAIN a |-> a[d] * b[d]])
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Wedge(co, q) ==          \* 1D: 1; 2D: over 16; 3D: over 16384
   CASE Len(co) = 1 -> <<1>>
     [] Len(co) = 2 -> LET t == Sub(co[2], co[1]) IN <<t[2], 0 - t[1]>>
     [] Len(co) = 3 -> Times(256, Cross(Sub(co[2], co[1]), Sub(co[3], co[1])))
     [] Len(co) = 4 -> Cross(Add(Times(4 - q[2], Sub(co[2], co[1])), Times(4 + q[2], Sub(co[4], co[3]))),
                             Add(Times(4 - q[1], Sub(co[3], co[1])), Times(4 + q[1], Sub(co[4], co[2]))))
SumOf(co) == [d \in DOMAIN co[1] |-> Sum2([v \in DOMAIN co |-> co[v][d]])]
(* from the middle of the element to the middle of the facet *)
OutOf(el, fa) == Sub(Times(Len(el), SumOf(fa)), Times(Len(fa), SumOf(el)))
Side(el, fa) ==
   LET mid == CASE Len(fa) = 1 -> <<1>>
                [] Len(fa) = 2 -> Wedge(fa, <<0>>)
                [] Len(fa) = 3 -> Cross(Sub(fa[2], fa[1]), Sub(fa[3], fa[1]))
                [] Len(fa) = 4 -> Cross(Add(Sub(fa[2], fa[1]), Sub(fa[4], fa[3])), Add(Sub(fa[3], fa[1]), Sub(fa[4], fa[2])))
   IN IF Dot(mid, OutOf(el, fa)) > 0 THEN 1 ELSE 0 - 1
Normal(el, fa, q) == Times(Side(el, fa), Wedge(fa, q))
-----------------------------------------------------------------------------
(* a point q of a facet with vertex numbers f of an element with vertices co *)
Pick(co, f) == [k \in DOMAIN f |-> co[f[k] + 1]]
OnFacet(dim, co, f, q) == PointOf(dim - 1, Pick(co, f), q)
(* the same facet seen from the other element: vertices matched by their nodes.  nl, nr: nodes of the elements *)
Matched(nl, f, nr, g) == [k \in DOMAIN f |-> CHOOSE j \in DOMAIN g : nr[g[j] + 1] = nl[f[k] + 1]]
OtherSide(dim, cr, g, m, q) == PointOf(dim - 1, [k \in DOMAIN m |-> cr[g[m[k]] + 1]], q)
=============================================================================
