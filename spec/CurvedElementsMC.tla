-------------------------- MODULE CurvedElementsMC --------------------------
(* On every facet of an element of second order, with its vertices in any order, the interpolation of the     *)
(* facet is that of the element: neighbours with the same nodes on a facet agree on every one of its points.  *)
(* And: the integral of the divergence is that of the flux, for elements with one or two moved nodes.         *)
EXTENDS CurvedElements, TLC
CONSTANTS Moves
MCMoves == {0 - 1, 0, 1}
VARIABLES dim, f, q, mv
P == INSTANCE Polytopes
Range(s) == {s[i] : i \in DOMAIN s}
(* reference positions in halves *)
E(dm, i) == [k \in 1..dm |-> IF i = k THEN 1 ELSE 0]
RefCo(dm) == [v \in 1..Nodes(dm) |-> G!Add(E(dm, Pairs[v][1]), E(dm, Pairs[v][2]))]
NodeOf(i, j) == CHOOSE v \in DOMAIN Pairs : Range(Pairs[v]) = {i, j} /\ (i = j) = (Pairs[v][1] = Pairs[v][2])
(* facet opposite to vertex o, vertices in the order s: its nodes (numbers from 1) *)
Facet(dm, s) == [v \in 1..Nodes(dm - 1) |-> NodeOf(s[Pairs[v][1] + 1], s[Pairs[v][2] + 1])]
Orders(dm) == {s \in [1..dm -> 0..dm] : Cardinality(Range(s)) = dm}
FacetPoints(dm) == IF dm = 2 THEN {<<x>> : x \in (0 - 4)..4} ELSE {x \in {<<a, b>> : a \in 0..4, b \in 0..4} : x[1] + x[2] <= 4}
None == [node |-> 1, by |-> 0, axis |-> 1, next |-> 1]
Init == /\ dim \in 2..3
        /\ \/ f \in {Facet(dim, s) : s \in Orders(dim)} /\ q \in FacetPoints(dim) /\ mv = None
           \/ /\ f = Facet(dim, [k \in 1..dim |-> k]) /\ q = [k \in 1..(dim - 1) |-> 0]
              /\ mv \in [node : 1..Nodes(dim), by : Moves, axis : 1..dim, next : 1..Nodes(dim)]
Next == UNCHANGED <<dim, f, q, mv>>
Spec == Init /\ [][Next]_<<dim, f, q, mv>>
Fl == Bary(dim - 1, q)
FD == BaryD(dim - 1)
(* barycentric coordinates of the image in the element *)
VertexAt(k) == Pairs[f[CHOOSE v \in 1..Nodes(dim - 1) : Pairs[v] = <<k, k>>]][1]
El == [i \in 1..(dim + 1) |-> LET k == {k \in 0..(dim - 1) : VertexAt(k) = i - 1} IN IF k = {} THEN 0 ELSE Fl[(CHOOSE x \in k : TRUE) + 1]]
Consistent == \A v \in 1..Nodes(dim) :
   QWeight(El, FD, v) = (IF v \in Range(f) THEN QWeight(Fl, FD, CHOOSE j \in DOMAIN f : f[j] = v) ELSE 0)
Partition == /\ Total([v \in 1..Nodes(dim) |-> QWeight(El, FD, v)]) = FD * FD
             /\ \A d \in 1..dim : Total([v \in 1..Nodes(dim) |-> Along(El, FD, v, d)]) = 0
Once == mv = None /\ \A k \in DOMAIN q : q[k] = 0
Nodal == ~Once \/ \A v, w \in 1..Nodes(dim) :
   QWeight([i \in 1..(dim + 1) |-> (IF Pairs[v][1] = i - 1 THEN 1 ELSE 0) + (IF Pairs[v][2] = i - 1 THEN 1 ELSE 0)], 2, w) = (IF v = w THEN 4 ELSE 0)
(* facets of the node tables *)
Tables == ~Once \/ \A s \in Orders(dim) : Range(Facet(dim, s)) \in Range(P!FacetTable(dim, Nodes(dim)))
Moved == TLCEval([v \in 1..Nodes(dim) |-> [k \in 1..dim |-> 8 * RefCo(dim)[v][k] + (IF v \in {mv.node, mv.next} /\ k = mv.axis THEN mv.by ELSE 0)]])
One(o) == Facet(dim, CHOOSE s \in Orders(dim) : o \notin Range(s))
Closed == mv = None \/ LET m == Moved  a == TLCEval([o \in 0..dim |-> Area(m, Pick(m, [k \in DOMAIN One(o) |-> One(o)[k] - 1]))])
          IN \A k \in 1..dim : Total([o \in 1..(dim + 1) |-> a[o - 1][k]]) = 0
(* a node moved by a length that keeps the element: the volume changes by the flux through the moved facets *)
Pose == \A k \in DOMAIN q : q[k] = 0
Positive == ~Pose \/ Volume(dim, Moved) > 0
Outward == LET l == Bary(dim - 1, q)
               fa == [k \in DOMAIN f |-> RefCo(dim)[f[k]]]
           IN G!Dot(Normal([v \in DOMAIN RefCo(dim) |-> G!Times(8, RefCo(dim)[v])], [k \in DOMAIN f |-> G!Times(8, RefCo(dim)[f[k]])], q),
                    G!OutOf(Corners(RefCo(dim)), Corners(fa))) > 0
=============================================================================
