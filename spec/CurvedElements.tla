--------------------------- MODULE CurvedElements ---------------------------
(* C31: elements of second order.  A simplex with vertices 0..dim has the nodes <<i, j>> with i <= j: the     *)
(* vertices <<i, i>> and the middles of the edges, in the order of j and then i.  A point is given by its      *)
(* barycentric coordinates l with sum D; positions are the quadratic interpolation of the nodes' positions.    *)
(* The facets of an element are simplices of second order on their own nodes.                                  *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC
G == INSTANCE FaceGeometry
Pairs == <<<<0, 0>>, <<0, 1>>, <<1, 1>>, <<0, 2>>, <<1, 2>>, <<2, 2>>, <<0, 3>>, <<1, 3>>, <<2, 3>>, <<3, 3>>>>
Nodes(dim) == ((dim + 1) * (dim + 2)) \div 2
Total(s) == LET RECURSIVE T(_)
                T(i) == IF i = 0 THEN 0 ELSE s[i] + T(i - 1) IN T(Len(s))
(* barycentric coordinates of a reference point in quarters: lines run from -1 to 1, other simplices from 0 to 1 *)
Bary(dim, q) == IF dim = 1 THEN <<4 - q[1], 4 + q[1]>> ELSE <<4 - Total(q)>> \o q
BaryD(dim) == IF dim = 1 THEN 8 ELSE 4
(* over D^2 *)
QWeight(l, D, v) == LET p == Pairs[v] IN
   IF p[1] = p[2] THEN l[p[1] + 1] * (2 * l[p[1] + 1] - D) ELSE 4 * l[p[1] + 1] * l[p[2] + 1]
(* derivative to l_i, over D *)
QSlope(l, D, v, i) == LET p == Pairs[v] IN
   IF p[1] = p[2] THEN (IF p[1] = i THEN 4 * l[i + 1] - D ELSE 0)
   ELSE IF p[1] = i THEN 4 * l[p[2] + 1] ELSE IF p[2] = i THEN 4 * l[p[1] + 1] ELSE 0
(* from vertex 0 towards vertex d: over D *)
Along(l, D, v, d) == QSlope(l, D, v, d) - QSlope(l, D, v, 0)
Position(l, D, co) == [k \in DOMAIN co[1] |-> Total([v \in DOMAIN co |-> QWeight(l, D, v) * co[v][k]])]
Tangent(l, D, co, d) == TLCEval([k \in DOMAIN co[1] |-> Total([v \in DOMAIN co |-> Along(l, D, v, d) * co[v][k]])])
(* ----- as recorded: positions times 4096 and Jacobians times 1024, for coordinates in eighths *)
PointOf(dim, co, q) == IF dim = 0 THEN G!Times(512, co[1]) ELSE G!Times(512 \div (BaryD(dim) * BaryD(dim)), Position(Bary(dim, q), BaryD(dim), co))
JacobianOf(dim, co, q) == LET t == TLCEval([d \in 1..dim |-> Tangent(Bary(dim, q), 4, co, d)])
                          IN [k \in 1..(dim * dim) |-> 32 * t[((k - 1) % dim) + 1][((k - 1) \div dim) + 1]]
(* ----- normals *)
Pick(co, f) == TLCEval([k \in DOMAIN f |-> co[f[k] + 1]])
Corners(co) == LET m == CASE Len(co) = 3 -> <<1, 3>> [] Len(co) = 6 -> <<1, 3, 6>> [] Len(co) = 10 -> <<1, 3, 6, 10>>
               IN [k \in DOMAIN m |-> co[m[k]]]
Side(el, fa) == G!Side(Corners(el), Corners(fa))
(* tangents to the facet, 2D: over D; 3D: over D^2 *)
Wedge(l, D, fa) == TLCEval(IF Len(fa) = 3 THEN LET t == Tangent(l, D, fa, 1) IN <<t[2], 0 - t[1]>>
                   ELSE G!Cross(Tangent(l, D, fa, 1), Tangent(l, D, fa, 2)))
(* times 32 in two dimensions (the reference line has length 2), times 16384 in three *)
Normal(el, fa, q) == LET w == Wedge(Bary(IF Len(fa) = 3 THEN 1 ELSE 2, q), IF Len(fa) = 3 THEN 8 ELSE 4, fa)
                     IN IF Len(fa) = 3 THEN [k \in DOMAIN w |-> (Side(el, fa) * w[k]) \div 4] ELSE G!Times(16 * Side(el, fa), w)
(* ----- integrals; recorded as 36864 * 8^n times the value *)
Det(j) == IF Len(j) = 2 THEN j[1][1] * j[2][2] - j[1][2] * j[2][1]
          ELSE G!Dot(j[1], G!Cross(j[2], j[3]))
DetAt(dim, co, l, D) == Det(TLCEval([d \in 1..dim |-> Tangent(l, D, co, d)]))
(* middles of the sides of a triangle: exact to degree 2; vertices and centres of the facets: exact to degree 3 *)
Middles == {<<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>>}
Spikes == {<<3, 0, 0, 0>>, <<0, 3, 0, 0>>, <<0, 0, 3, 0>>, <<0, 0, 0, 3>>}
Centres == {<<0, 1, 1, 1>>, <<1, 0, 1, 1>>, <<1, 1, 0, 1>>, <<1, 1, 1, 0>>}
SumOver(S, F(_)) == LET RECURSIVE T(_)
                        T(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN F(x) + T(X \ {x})
                    IN T(S)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Volume(dim, co) ==
   IF dim = 2 THEN Abs(1536 * SumOver(Middles, LAMBDA l : DetAt(2, co, l, 2)))
   ELSE LET s == Abs(SumOver(Spikes, LAMBDA l : DetAt(3, co, l, 3)) + 9 * SumOver(Centres, LAMBDA l : DetAt(3, co, l, 3)))
        IN (s \div 45) * 256 + ((s % 45) * 256) \div 45
(* the integral of the normal over a facet *)
Area(el, fa) ==
   IF Len(fa) = 3 THEN LET t == G!Sub(fa[3], fa[1]) IN G!Times(36864 * Side(el, fa), <<t[2], 0 - t[1]>>)
   ELSE G!Times(1536 * Side(el, fa), [k \in 1..3 |-> SumOver(Middles, LAMBDA l : Wedge(l, 2, fa)[k])])
=============================================================================
