--------------------------- MODULE FieldFunctions ---------------------------
(* C27: the functions an element offers.  Which polynomials they span, and how *)
(* gradients, curls and transformations to physical space relate to values.    *)
(* Everything is decided from samples: derivatives through a difference formula*)
(* that is exact for polynomials up to degree eight, spans through the         *)
(* coefficients of each polynomial (a certificate that is verified here).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt
Abs(x) == IF x < 0 THEN -x ELSE x
Pow(x, k) == FoldLeft(LAMBDA s, i : s * x, 1, [i \in 1..k |-> i])
(* samples at +h, -h, +2h, -2h, .., -4h;  the sum is 840 h f' *)
W == <<672, -168, 32, -3>>
Diff(s) == FoldLeft(LAMBDA a, k : a + W[k] * (s[2 * k - 1] - s[2 * k]), 0, <<1, 2, 3, 4>>)
(* with h = 1/32 *)
Slope(s) == (4 * Diff(s)) \div 105
SlopeError == 35              \* samples are rounded: 875 half units, times 4/105

(* exponents of the polynomials that functions of this order have to reproduce *)
Tuples(d, p) == IF d = 1 THEN {<<a>> : a \in 0..p} ELSE IF d = 2 THEN {<<a, b>> : a, b \in 0..p} ELSE {<<a, b, x>> : a, b, x \in 0..p}
Degree(m) == FoldLeft(LAMBDA s, x : s + x, 0, m)
Complete(d, p) == {m \in Tuples(d, p) : Degree(m) <= p}
Shape(d, nv) == CASE nv = d + 1 -> "simplex" [] nv = 6 -> "prism" [] nv = 5 -> "pyramid" [] OTHER -> "cube"
Polynomials(d, nv, basis, p) ==
   LET s == Shape(d, nv) IN
   CASE basis = "mono" -> Complete(d, p)
     [] basis \in {"dg", "conf"} /\ s = "cube" -> Tuples(d, p)
     [] basis \in {"dg", "conf"} /\ s = "prism" -> {m \in Tuples(d, p) : m[1] + m[2] <= p}
     [] basis \in {"dg", "conf"} -> Complete(d, p)
     [] basis = "nedelec" -> {m \o <<k>> : m \in Complete(d, p - 1), k \in 0..(d - 1)}
     [] basis = "ac" -> {m \o <<k>> : m \in Complete(d, p), k \in 0..(d - 1)}
(* how many functions: as many as the space has dimensions *)
Count(d, nv, basis, p) ==
   LET s == Shape(d, nv) IN
   CASE basis \in {"dg", "conf"} /\ s = "pyramid" -> IF p = 0 THEN 1 ELSE 5
     [] basis = "nedelec" -> IF d = 2 THEN p * (p + 2) ELSE (p * (p + 2) * (p + 3)) \div 2
     [] OTHER -> Cardinality(Polynomials(d, nv, basis, p))

(* scaled value of a monomial at a point given in eighths (rounded at every step) *)
MonomialAt(m, q, scale) == FoldLeft(LAMBDA s, d : FoldLeft(LAMBDA t, i : (t * q[d]) \div 8, s, [i \in 1..m[d] |-> i]), scale, [d \in 1..Len(q) |-> d])
(* sum of coefficients times values, and how far it can be off through rounding to integers *)
RECURSIVE Comb(_, _, _), Off(_, _, _)
Comb(c, f, i) == IF i = 0 THEN 0 ELSE c[i] * f[i] + Comb(c, f, i - 1)
Off(c, f, i) == IF i = 0 THEN 0 ELSE Abs(c[i]) + Abs(f[i]) + 1 + Off(c, f, i - 1)
Reproduced(c, f, v, deg, n) == 2 * Abs(Comb(c, f, n) - 1024 * v) <= Off(c, f, n) + 2048 * (deg + 1)

(* the mapping: J (times 4096) against samples of the coordinates (times 1e5) *)
JacobianOK(J, x, D) == \A i \in 1..D, a \in 1..D : Abs(J[a][i] * 100000 - Slope(x[i][a]) * 4096) <= (SlopeError + 1) * 4096 + 50000
(* chain rule: slopes of f (1e4) along the reference directions against the gradient (1e3) *)
Dot(g, J, i, D) == FoldLeft(LAMBDA s, a : s + g[a] * J[a][i], 0, [a \in 1..D |-> a])
DotAbs(g, D) == FoldLeft(LAMBDA s, a : s + Abs(g[a]), 0, [a \in 1..D |-> a])
ColAbs(J, i, D) == FoldLeft(LAMBDA s, a : s + Abs(J[a][i]), 0, [a \in 1..D |-> a])
GradientOK(J, s, g, D) == \A i \in 1..D :
   2 * Abs(Dot(g, J, i, D) - (Slope(s[i][1]) \div 10) * 4096) <= 2 * 5 * 4096 + ColAbs(J, i, D) + DotAbs(g, D) + 2
(* covariant functions: circulations do not change (J in eighths) *)
CovariantOK(J8, v, r, D) == \A i \in 1..D : 2 * Abs(Dot(v, J8, i, D) - 8 * r[i]) <= ColAbs(J8, i, D) + 10
(* contravariant functions: fluxes do not change (values times 1000, J in eighths) *)
Det(J, D) == IF D = 2 THEN J[1][1] * J[2][2] - J[1][2] * J[2][1]
             ELSE J[1][1] * (J[2][2] * J[3][3] - J[2][3] * J[3][2]) - J[1][2] * (J[2][1] * J[3][3] - J[2][3] * J[3][1]) + J[1][3] * (J[2][1] * J[3][2] - J[2][2] * J[3][1])
RowAbs(J, a, D) == FoldLeft(LAMBDA s, i : s + Abs(J[a][i]), 0, [i \in 1..D |-> i])
RowDot(J, a, r, D) == FoldLeft(LAMBDA s, i : s + J[a][i] * r[i], 0, [i \in 1..D |-> i])
ContravariantOK(J8, h, r, D) == \A a \in 1..D :
   LET u == Pow(8, D - 1) IN Abs(Det(J8, D) * h[a] - u * (RowDot(J8, a, r, D) \div 10)) <= Abs(Det(J8, D)) \div 2 + u * (RowAbs(J8, a, D) \div 20 + 2) + 1
(* curl: the antisymmetric part of the derivative, seen along two directions *)
Minor(J, a, b, i, j) == J[a][i] * J[b][j] - J[b][i] * J[a][j]
Twist(J8, s, i, j, D) == FoldLeft(LAMBDA t, a : t + Slope(s[i][a]) * J8[a][j] - Slope(s[j][a]) * J8[a][i], 0, [a \in 1..D |-> a])
Through(J8, c, i, j, D) == IF D = 2 THEN c[1] * Minor(J8, 1, 2, i, j)
                           ELSE c[1] * Minor(J8, 2, 3, i, j) + c[2] * Minor(J8, 3, 1, i, j) + c[3] * Minor(J8, 1, 2, i, j)
ThroughAbs(J8, i, j, D) == IF D = 2 THEN Abs(Minor(J8, 1, 2, i, j))
                           ELSE Abs(Minor(J8, 2, 3, i, j)) + Abs(Minor(J8, 3, 1, i, j)) + Abs(Minor(J8, 1, 2, i, j))
CurlOK(J8, s, c, D) == \A i \in 1..D : \A j \in (i + 1)..D :
   Abs(8 * Twist(J8, s, i, j, D) - 10 * Through(J8, c, i, j, D))
      <= 8 * (SlopeError + 1) * (ColAbs(J8, i, D) + ColAbs(J8, j, D)) + 5 * ThroughAbs(J8, i, j, D) + 10
-----------------------------------------------------------------------------
(* theorems about the definitions above, checked by TLC for small values *)
DifferenceExact == \A k \in 0..8 : \A x \in -2..2 :
   Diff([i \in 1..8 |-> Pow(x + (IF i % 2 = 1 THEN (i + 1) \div 2 ELSE -(i \div 2)), k)]) = 840 * k * (IF k = 0 THEN 0 ELSE Pow(x, k - 1))
Binomial(n, k) == FoldLeft(LAMBDA s, i : (s * (n - i + 1)) \div i, 1, [i \in 1..k |-> i])
Dimensions == \A p \in 0..5 : \A d \in 1..3 :
   /\ Cardinality(Complete(d, p)) = Binomial(p + d, d)
   /\ Cardinality(Tuples(d, p)) = Pow(p + 1, d)
   /\ d = 3 => Count(3, 6, "dg", p) = (p + 1) * Binomial(p + 2, 2)
   /\ (d > 1 /\ p > 0) => Count(d, d + 1, "nedelec", p) > Cardinality(Polynomials(d, d + 1, "nedelec", p))
(* a linear field f = A x (entries times 1e4): its curl explains the twist for every J *)
Samples(A, J, i, a, D) == [k \in 1..8 |-> LET t == IF k % 2 = 1 THEN (k + 1) \div 2 ELSE -(k \div 2)
                                           IN t * FoldLeft(LAMBDA s, b : s + A[a][b] * J[b][i], 0, [b \in 1..D |-> b])]
CurlTheorem == \A A \in [1..2 -> [1..2 -> {0, 40, -80}]] : \A J \in [1..2 -> [1..2 -> {-1, 1, 2}]] :
   LET s == [i \in 1..2 |-> [a \in 1..2 |-> Samples(A, J, i, a, 2)]]
       c == <<A[2][1] - A[1][2]>>
   IN Twist(J, s, 1, 2, 2) = 32 * c[1] * Minor(J, 1, 2, 1, 2)
VARIABLE done
Init == done = FALSE
Next == done' = TRUE
Spec == Init /\ [][Next]_done
Theorems == DifferenceExact /\ Dimensions /\ CurlTheorem
=============================================================================
