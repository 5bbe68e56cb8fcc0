----------------------------- MODULE Polytopes -----------------------------
(* The reference shapes of hpGEM: vertices (numbered from 1), facets and edges as sets of local vertices,   *)
(* identified by the dimension and the number of vertices.                                                  *)
EXTENDS Integers, Sequences
Up(s) == [i \in DOMAIN s |-> {x + 1 : x \in s[i]}]
Points(n) == [i \in 1..n |-> {i}]
FacetTable(dim, n) ==
   CASE dim = 1 -> Points(2)
     [] dim = 2 /\ n = 3 -> Up(<<{0,1},{0,2},{1,2}>>)
     [] dim = 2 /\ n = 4 -> Up(<<{0,1},{0,2},{1,3},{2,3}>>)
     [] dim = 3 /\ n = 4 -> Up(<<{0,2,3},{0,1,3},{0,1,2},{1,2,3}>>)
     [] dim = 3 /\ n = 5 -> Up(<<{1,2,3,4},{0,1,3},{0,2,4},{0,1,2},{0,3,4}>>)
     [] dim = 3 /\ n = 6 -> Up(<<{0,1,2},{3,4,5},{0,2,3,5},{0,1,3,4},{1,2,4,5}>>)
     (* elements of second order: middles of edges between the vertices, first coordinate fastest *)
     [] dim = 2 /\ n = 6 -> Up(<<{0,1,2},{0,3,5},{2,4,5}>>)
     [] dim = 3 /\ n = 10 -> Up(<<{0,3,5,6,8,9},{0,1,2,6,7,9},{0,1,2,3,4,5},{2,4,5,7,8,9}>>)
     [] dim = 3 /\ n = 8 -> Up(<<{0,1,2,3},{0,1,4,5},{0,2,4,6},{1,3,5,7},{2,3,6,7},{4,5,6,7}>>)
EdgeTable(n) ==
   CASE n = 4 -> Up(<<{0,1},{0,2},{0,3},{2,3},{1,3},{1,2}>>)
     [] n = 5 -> Up(<<{0,1},{0,2},{0,3},{0,4},{1,2},{2,4},{3,4},{1,3}>>)
     [] n = 6 -> Up(<<{0,1},{0,2},{1,2},{3,4},{3,5},{4,5},{0,3},{1,4},{2,5}>>)
     [] n = 10 -> Up(<<{0,1,2},{0,3,5},{0,6,9},{5,8,9},{2,7,9},{2,4,5}>>)
     [] n = 8 -> Up(<<{0,1},{2,3},{4,5},{6,7},{0,2},{1,3},{4,6},{5,7},{0,4},{1,5},{2,6},{3,7}>>)
(* local entities of dimension d *)
Entities(dim, n, d) == IF d = 0 THEN Points(n) ELSE IF d = dim - 1 THEN FacetTable(dim, n) ELSE EdgeTable(n)
(* the shape of first order, and which nodes are its vertices *)
Straight(dim, n) == IF dim > 1 /\ n = (IF dim = 2 THEN 6 ELSE 10) THEN dim + 1 ELSE n
Vertices(dim, n) == IF Straight(dim, n) = n THEN 1..n ELSE {1, 3, 6} \cup (IF dim = 3 THEN {10} ELSE {})
Shapes(dim) == CASE dim = 1 -> {2} [] dim = 2 -> {3, 4} [] dim = 3 -> {4, 5, 6, 8}
=============================================================================
