-------------------------- MODULE StructuredModel --------------------------
(* A box is cut into cells, cell by cell, simplices alternating between neighbouring cells. For every small *)
(* box the result satisfies MeshOK, provided periodic directions have room (3 cells, and an even number for *)
(* tetrahedra); with an odd number of cells in a periodic direction tetrahedra do not fit.                  *)
EXTENDS Structured, TLC
CONSTANTS MaxN, Dims
VARIABLES q, cell, G
vars == <<q, cell, G>>
Bit(j, k) == (j \div (2 ^ (k - 1))) % 2
Corner(x, j) == [k \in Dir(q) |-> q.lo[k] + (x[k] + Bit(j, k)) * q.h[k]]
Tets == <<<<1,2,4,7>>, <<0,1,2,4>>, <<1,3,2,7>>, <<1,4,5,7>>, <<2,6,4,7>>>>
Tris == <<<<0,1,2>>, <<1,3,2>>>>
Cut(x) == LET odd == (MapThenSumSet(LAMBDA k : x[k], Dir(q))) % 2
              mir(j) == IF odd = 0 THEN j ELSE IF j % 2 = 0 THEN j + 1 ELSE j - 1
              T == IF q.tri = 0 THEN <<[j \in 1..(2 ^ Len(q.n)) |-> j - 1]>>
                   ELSE IF Len(q.n) = 2 THEN Tris ELSE Tets IN
          [i \in DOMAIN T |-> [v \in DOMAIN T[i] |-> Corner(x, IF q.tri = 0 THEN T[i][v] ELSE mir(T[i][v]))]]
Total == Prod(q.n)
CellAt(i) == LET S[k \in 0..Len(q.n)] == IF k = 0 THEN 1 ELSE S[k - 1] * q.n[k] IN [k \in Dir(q) |-> (i \div S[k - 1]) % q.n[k]]
Init == /\ \E d \in Dims : q \in [n : [1..d -> 1..MaxN], per : [1..d -> {0, 1}], lo : {[k \in 1..d |-> -2 * k]}, h : {[k \in 1..d |-> k]},
                                  tri : IF d = 1 THEN {0} ELSE {0, 1}]
        /\ cell = 0 /\ G = <<>>
Next == cell < Total /\ cell' = cell + 1 /\ G' = G \o Cut(CellAt(cell)) /\ q' = q
Spec == Init /\ [][Next]_vars
(* the mesh record: entities are what has the same vertices *)
Key(d, e, l) == {Wrap(q, G[e][v]) : v \in Entities(Len(q.n), Len(G[e]), d)[l]}
UsesG(d) == UNION {{<<e, l>> : l \in DOMAIN Entities(Len(q.n), Len(G[e]), d)} : e \in DOMAIN G}
FacetOf == LET D == Len(q.n) - 1
               key == [u \in UsesG(D) |-> Key(D, u[1], u[2])] IN
           \A u \in DOMAIN key : LET same == {w \in DOMAIN key : key[w] = key[u]} IN
               Cardinality(same) = IF OnWall(q, {G[u[1]][v] : v \in Entities(Len(q.n), Len(G[u[1]]), D)[u[2]]}) THEN 1 ELSE 2
Room == \A k \in Dir(q) : q.per[k] = 1 => (q.n[k] > 2 /\ (q.tri = 1 /\ Len(q.n) = 3 => q.n[k] % 2 = 0))
Done == cell = Total
TilesTheBox == Done => Tiles(q, G)
FitsIfRoom == (Done /\ Room) => FacetOf
OddDoesNotFit == (Done /\ Len(q.n) = 3 /\ q.tri = 1 /\ \E k \in Dir(q) : q.per[k] = 1 /\ q.n[k] = 3) => ~FacetOf
=============================================================================
