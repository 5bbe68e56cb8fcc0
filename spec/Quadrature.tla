----------------------------- MODULE Quadrature -----------------------------
(* Integrals of polynomials, exactly.                                                                      *)
(*  - the moments of the reference shapes, as fractions, and the degrees a rule has to be exact for         *)
(*  - the integrals of 1 and the coordinates over an element and of powers of a coordinate times the        *)
(*    outward normal over a (bilinear) facet, from the coordinates of the vertices                          *)
(*  - which rule an element and a face use after a history of assignments of basis functions                *)
EXTENDS Integers, Sequences, FiniteSets
G == INSTANCE FaceGeometry
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
(* ----- moments of the reference shapes: <<numerator, denominator>> *)
OnLine(a) == IF a % 2 = 1 THEN <<0, 1>> ELSE <<2, a + 1>>
OnTriangle(a, b) == <<1, Choose(a + b, a) * (a + b + 1) * (a + b + 2)>>
Mul(x, y) == <<x[1] * y[1], x[2] * y[2]>>
DimOf(s) == CASE s = "point" -> 0 [] s = "line" -> 1 [] s \in {"triangle", "square"} -> 2 [] s = "hypercube" -> 4 [] OTHER -> 3
Moment(s, e) ==
   CASE s = "point" -> <<1, 1>>
     [] s = "line" -> OnLine(e[1])
     [] s = "square" -> Mul(OnLine(e[1]), OnLine(e[2]))
     [] s = "cube" -> Mul(OnLine(e[1]), Mul(OnLine(e[2]), OnLine(e[3])))
     [] s = "hypercube" -> Mul(OnLine(e[1]), Mul(OnLine(e[2]), Mul(OnLine(e[3]), OnLine(e[4]))))
     [] s = "triangle" -> OnTriangle(e[1], e[2])
     [] s = "prism" -> Mul(OnTriangle(e[1], e[2]), OnLine(e[3]))
     [] s = "tetrahedron" -> <<1, Choose(e[1] + e[2] + e[3], e[1]) * Choose(e[2] + e[3], e[2]) * (e[1] + e[2] + e[3] + 1) * (e[1] + e[2] + e[3] + 2) * (e[1] + e[2] + e[3] + 3)>>
     [] s = "pyramid" -> IF e[1] % 2 = 1 \/ e[2] % 2 = 1 THEN <<0, 1>>
                         ELSE <<4, (e[1] + 1) * (e[2] + 1) * Choose(e[1] + e[2] + e[3] + 2, e[3]) * (e[1] + e[2] + e[3] + 3)>>
(* degrees a rule of order o is exact for: in every coordinate of a box, in total otherwise *)
Exact(s, o) == LET d == DimOf(s) IN
   {e \in [1..4 -> 0..o] : /\ \A k \in 1..4 : k > d => e[k] = 0
                           /\ s \in {"square", "cube", "hypercube"} \/ e[1] + e[2] + e[3] <= o}
(* ----- facets (all times 2304; coordinates are integers) *)
LOCAL T(s) == LET RECURSIVE F(_)
                  F(i) == IF i = 0 THEN 0 ELSE s[i] + F(i - 1) IN F(Len(s))
LOCAL V(k, a) == [d \in DOMAIN a |-> k * a[d]]
LOCAL W(i) == IF i = 1 THEN 4 ELSE 1
(* <<integral of n_d, of x_d n_d, of x_d^2 n_d>>, for the normal of the order of the vertices *)
FluxOf(co, d) ==
   CASE Len(co) = 1 -> <<2304, 2304 * co[1][1], 2304 * co[1][1] * co[1][1]>>
     [] Len(co) = 2 -> LET t == G!Sub(co[2], co[1])
                           n == IF d = 1 THEN t[2] ELSE 0 - t[1]
                           a == co[1][d]  b == co[2][d]
                       IN <<2304 * n, 1152 * n * (a + b), 384 * n * (a * a + (a + b) * (a + b) + b * b)>>
     [] Len(co) = 3 -> LET n == G!Cross(G!Sub(co[2], co[1]), G!Sub(co[3], co[1]))[d]
                           s == <<co[1][d] + co[2][d], co[1][d] + co[3][d], co[2][d] + co[3][d]>>
                       IN <<1152 * n, 192 * n * T(s), 96 * n * T([i \in 1..3 |-> s[i] * s[i]])>>
     [] Len(co) = 4 ->
          LET A(j) == G!Add(V(2 - j, G!Sub(co[2], co[1])), V(j, G!Sub(co[4], co[3])))
              B(i) == G!Add(V(2 - i, G!Sub(co[3], co[1])), V(i, G!Sub(co[4], co[2])))
              P(i, j) == (2 - i) * (2 - j) * co[1][d] + i * (2 - j) * co[2][d] + (2 - i) * j * co[3][d] + i * j * co[4][d]
              N(i, j) == W(i) * W(j) * G!Cross(A(j), B(i))[d]
              all == [m \in 1..9 |-> <<(m - 1) \div 3, (m - 1) % 3>>]
              n == [m \in 1..9 |-> N(all[m][1], all[m][2])]
              x == [m \in 1..9 |-> P(all[m][1], all[m][2])]
          IN <<16 * T(n), 4 * T([m \in 1..9 |-> n[m] * x[m]]), T([m \in 1..9 |-> n[m] * x[m] * x[m]])>>
(* outward; relative to the first vertex of the element *)
Facet(co, f, d) ==
   LET rel == [v \in DOMAIN co |-> G!Sub(co[v], co[1])]
       fa == G!Pick(rel, f)
       s == G!Side(rel, fa)
   IN V(s, FluxOf(fa, d))
FacetAll(dim, co, f) == LET a == [d \in 1..dim |-> Facet(co, f, d)] IN
   [k \in 1..(3 * dim) |-> a[((k - 1) % dim) + 1][((k - 1) \div dim) + 1]]
(* ----- elements: Gauss' theorem in every direction *)
SumOver(co, fs, d, k) == T([i \in DOMAIN fs |-> Facet(co, fs[i], d)[k]])
Closed(dim, co, fs) == \A d \in 1..dim : SumOver(co, fs, d, 1) = 0 /\ SumOver(co, fs, d, 2) = SumOver(co, fs, 1, 2)
(* <<volume, integral of x_1, x_2, ..>> times 2304 *)
ElementAll(dim, co, fs) == <<SumOver(co, fs, 1, 2)>> \o [d \in 1..dim |-> SumOver(co, fs, d, 3) \div 2]
(* the mapping of a pyramid is a polynomial if its base is a parallelogram *)
Polynomial(co) == Len(co) # 5 \/ G!Add(co[2], co[5]) = G!Add(co[3], co[4])
(* ----- which rules are used.  Products of two functions of the basis have to be integrated exactly. *)
Needed(orders) == 2 * (CHOOSE o \in orders : \A x \in orders : x <= o)
=============================================================================
