------------------------------ MODULE VtkCells ------------------------------
(* Cells of visualisation files: type numbers and the positions of their points, as lattice positions in    *)
(* the element. A position of a cube-like cell is <<i,j,k>> in 0..p; of a simplex its barycentric numbers;   *)
(* of wedges and pyramids (order one only) the number of the vertex.                                        *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Cat(f, n) == LET RECURSIVE C(_)                  \* f(1) \o ... \o f(n)
                       C(i) == IF i > n THEN <<>> ELSE f[i] \o C(i + 1) IN C(1)
Seq1(n, g(_)) == [i \in 1..n |-> g(i)]
CellType(dim, nv, p) ==
   CASE dim = 1 -> IF p <= 1 THEN 3 ELSE 68
     [] dim = 2 /\ nv = 3 -> IF p <= 1 THEN 5 ELSE 69
     [] dim = 2 /\ nv = 4 -> IF p <= 1 THEN 9 ELSE 70
     [] dim = 3 /\ nv = 4 -> IF p <= 1 THEN 10 ELSE 71
     [] dim = 3 /\ nv = 8 -> IF p <= 1 THEN 12 ELSE 72
     [] dim = 3 /\ nv = 6 -> 13
     [] dim = 3 /\ nv = 5 -> 14
(* points strictly between a and b, which differ by p steps *)
Between(a, b, p) == [t \in 1..(p - 1) |-> [d \in DOMAIN a |-> ((p - t) * a[d] + t * b[d]) \div p]]
CurvePts(p) == <<<<0>>, <<p>>>> \o Between(<<0>>, <<p>>, p)
(* the lattice points strictly inside a box of directions D (lexicographic, the first direction fastest) *)
Inside1(p) == [t \in 1..(p - 1) |-> t]
QuadPts(p) == LET c == <<<<0, 0>>, <<p, 0>>, <<p, p>>, <<0, p>>>> IN
   c \o Between(c[1], c[2], p) \o Between(c[2], c[3], p) \o Between(c[4], c[3], p) \o Between(c[1], c[4], p)
     \o Cat([j \in 1..(p - 1) |-> [i \in 1..(p - 1) |-> <<i, j>>]], p - 1)
HexPts(p) ==
   LET c == <<<<0,0,0>>, <<p,0,0>>, <<p,p,0>>, <<0,p,0>>, <<0,0,p>>, <<p,0,p>>, <<p,p,p>>, <<0,p,p>>>>
       E(a, b) == Between(c[a], c[b], p)
       F(g(_,_)) == Cat([j \in 1..(p - 1) |-> [i \in 1..(p - 1) |-> g(i, j)]], p - 1) IN
   c \o E(1,2) \o E(2,3) \o E(4,3) \o E(1,4) \o E(5,6) \o E(6,7) \o E(8,7) \o E(5,8) \o E(1,5) \o E(2,6) \o E(4,8) \o E(3,7)
     \o F(LAMBDA i, j : <<0, i, j>>) \o F(LAMBDA i, j : <<p, i, j>>) \o F(LAMBDA i, j : <<i, 0, j>>)
     \o F(LAMBDA i, j : <<i, p, j>>) \o F(LAMBDA i, j : <<i, j, 0>>) \o F(LAMBDA i, j : <<i, j, p>>)
     \o Cat([k \in 1..(p - 1) |-> Cat([j \in 1..(p - 1) |-> [i \in 1..(p - 1) |-> <<i, j, k>>]], p - 1)], p - 1)
Up1(s) == [i \in DOMAIN s |-> [d \in DOMAIN s[i] |-> s[i][d] + 1]]
RECURSIVE TriPts(_)
TriPts(p) ==                     \* corners, edges 12, 23, 31, then the inner triangle
   IF p < 0 THEN <<>> ELSE IF p = 0 THEN <<<<0, 0, 0>>>>
   ELSE LET c == <<<<p, 0, 0>>, <<0, p, 0>>, <<0, 0, p>>>> IN
        c \o Between(c[1], c[2], p) \o Between(c[2], c[3], p) \o Between(c[3], c[1], p) \o Up1(TriPts(p - 3))
RECURSIVE TetPts(_)
TetPts(p) ==                     \* corners, edges 12, 23, 31, 14, 24, 34, faces 124, 342, 143, 132, then the inner tetrahedron
   IF p < 0 THEN <<>> ELSE IF p = 0 THEN <<<<0, 0, 0, 0>>>>
   ELSE LET c == <<<<p,0,0,0>>, <<0,p,0,0>>, <<0,0,p,0>>, <<0,0,0,p>>>>
            E(a, b) == Between(c[a], c[b], p)
            t == Up1(TriPts(p - 3))                    \* the points inside a face
            F(a, b, d) == [i \in DOMAIN t |-> [k \in 1..4 |-> CASE k = a -> t[i][1] [] k = b -> t[i][2] [] k = d -> t[i][3] [] OTHER -> 0]] IN
        c \o E(1,2) \o E(2,3) \o E(3,1) \o E(1,4) \o E(2,4) \o E(3,4) \o F(1,2,4) \o F(3,4,2) \o F(1,4,3) \o F(1,3,2)
          \o Up1(TetPts(p - 4))
P(p) == IF p < 1 THEN 1 ELSE p
(* the vertex order of a wedge: one triangle, then the opposite one; a pyramid: around the base, then the top *)
WedgePts == <<1, 2, 3, 4, 5, 6>>
PyramidPts == <<2, 3, 5, 4, 1>>
Positions(dim, nv, p) ==
   CASE dim = 1 -> CurvePts(P(p)) [] dim = 2 /\ nv = 3 -> TriPts(P(p)) [] dim = 2 /\ nv = 4 -> QuadPts(P(p))
     [] dim = 3 /\ nv = 4 -> TetPts(P(p)) [] dim = 3 /\ nv = 8 -> HexPts(P(p)) [] nv = 6 -> WedgePts [] nv = 5 -> PyramidPts
(* the position in space, in units of 1/p of the units of the vertices co (affine elements) *)
LOCAL Sum(s) == LET RECURSIVE S(_)
                    S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i - 1) IN S(Len(s))
At(dim, co, p, q) ==
   LET nv == Len(co) IN
   [d \in 1..dim |->
      IF nv \in {5, 6} THEN co[q][d]
      ELSE IF nv = dim + 1 /\ dim > 1 THEN Sum([v \in 1..nv |-> q[v] * co[v][d]])
      ELSE P(p) * co[1][d] + Sum([e \in 1..dim |-> q[e] * (co[1 + 2 ^ (e - 1)][d] - co[1][d])])]
CellPoints(dim, co, p) == LET q == Positions(dim, Len(co), p) IN [i \in DOMAIN q |-> At(dim, co, p, q[i])]
(* bricks and quadrilaterals of the other format: every element has 2^dim points *)
BrickOrder(dim, nv) ==
   CASE dim = 1 -> <<1, 2>> [] dim = 2 /\ nv = 4 -> <<1, 2, 4, 3>> [] dim = 2 /\ nv = 3 -> <<1, 1, 2, 3>>
     [] nv = 8 -> <<1, 2, 4, 3, 5, 6, 8, 7>> [] nv = 6 -> <<1, 2, 3, 3, 4, 5, 6, 6>>
     [] nv = 5 -> <<2, 3, 5, 4, 1, 1, 1, 1>> [] OTHER -> <<1, 2, 3, 3, 4, 4, 4, 4>>
=============================================================================
