------------------------------- MODULE Bands --------------------------------
(* C35: the band structure of a homogeneous medium is that of the empty lattice: every point G of the reciprocal    *)
(* lattice gives the mode |k - G| / n, twice in three dimensions (two polarisations), and once more for frequency   *)
(* zero.  Points k are integers in quarters, lattice vectors integers; squares are in sixteenths.                   *)
(* A bound is b + 37/101: no square or projection of points as close as here is equal to it.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
DotV(a, b) == LET RECURSIVE G(_)
                  G(i) == IF i = 0 THEN 0 ELSE a[i] * b[i] + G(i - 1) IN G(Len(a))
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Sq(a) == DotV(a, a)
Coords(dim, box) == [1..dim -> (0 - box)..box]
(* in quarters *)
Lattice(B, c) == [d \in DOMAIN B[1] |-> 4 * DotV(c, [i \in DOMAIN B |-> B[i][d]])]
Below(B, box, k, b) == {c \in Coords(Len(B), box) : Sq(Minus(k, Lattice(B, c))) <= b}
Weight(dim, s) == (IF dim > 2 THEN 2 ELSE 1) + (IF s = 0 THEN 1 ELSE 0)
(* number of modes for every square *)
Spectrum(B, box, k, b) ==
   LET C == TLCEval(Below(B, box, k, b))
       sq == TLCEval([c \in C |-> Sq(Minus(k, Lattice(B, c)))])
   IN [s \in {sq[c] : c \in C} |-> Weight(Len(B), s) * Cardinality({c \in C : sq[c] = s})]
(* the closest the segment from k to l comes to G, at most the bound *)
Near(dk, D, b) ==
   LET x == DotV(dk, D)  n == Sq(D) IN
   IF x >= 0 THEN Sq(dk) <= b
   ELSE IF 0 - x >= n THEN Sq([i \in DOMAIN dk |-> dk[i] + D[i]]) <= b
   ELSE 101 * (Sq(dk) * n - x * x) <= (101 * b + 37) * n
(* bands along the segment: squares at both ends and four times that in the middle, with their multiplicity *)
Lines(B, box, k, l, b) ==
   LET D == Minus(l, k)
       C == TLCEval({c \in Coords(Len(B), box) : Near(Minus(k, Lattice(B, c)), D, b)})
       key(c) == LET dk == Minus(k, Lattice(B, c)) IN <<Sq(dk), Sq([i \in DOMAIN dk |-> 2 * dk[i] + D[i]]), Sq([i \in DOMAIN dk |-> dk[i] + D[i]])>>
       of == TLCEval([c \in C |-> key(c)])
   IN [x \in {of[c] : c \in C} |-> Cardinality({c \in C : of[c] = x})]
(* paths: the point after i steps, times the number of steps of a leg *)
PathLength(p, s) == 1 + (Len(p) - 1) * s
PathAt(p, s, i) == LET j == (i \div s) + 1  r == i % s IN
   [d \in DOMAIN p[1] |-> s * p[j][d] + (IF r = 0 THEN 0 ELSE r * (p[j + 1][d] - p[j][d]))]
PathStep(p, s, i) == Minus(PathAt(p, s, i), PathAt(p, s, i - 1))
CubeCorners(dim, back) == [i \in 1..(dim + 1 + (IF back THEN 1 ELSE 0)) |-> [d \in 1..dim |-> IF i <= dim + 1 /\ d < i THEN 1 ELSE 0]]
=============================================================================
