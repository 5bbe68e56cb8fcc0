----------------------------- MODULE Refinement -----------------------------
(* C13: how an element is divided.  Positions are integer tuples (12ths of a reference unit in recordings).  *)
(* A division adds nodes to the vertices of a shape and forms sub-elements of some of the nodes.             *)
EXTENDS Integers, Sequences, FiniteSets, FaceGeometry
SetOf(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
(* -------- size: every shape consists of simplices, given by numbers of vertices -------- *)
Simplices(dim, n) ==
   CASE dim = 1 -> <<<<1, 2>>>>
     [] dim = 2 /\ n = 3 -> <<<<1, 2, 3>>>>
     [] dim = 2 /\ n = 4 -> <<<<1, 2, 3>>, <<2, 4, 3>>>>
     [] dim = 3 /\ n = 4 -> <<<<1, 2, 3, 4>>>>
     [] dim = 3 /\ n = 5 -> <<<<1, 2, 3, 4>>, <<1, 3, 4, 5>>>>
     [] dim = 3 /\ n = 6 -> <<<<1, 2, 3, 4>>, <<2, 3, 4, 5>>, <<3, 4, 5, 6>>>>
     [] dim = 3 /\ n = 8 -> <<<<1, 2, 4, 8>>, <<1, 2, 6, 8>>, <<1, 3, 4, 8>>, <<1, 3, 7, 8>>, <<1, 5, 6, 8>>, <<1, 5, 7, 8>>>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
SimplexSize(co) == Abs(
   CASE Len(co) = 2 -> co[2][1] - co[1][1]
     [] Len(co) = 3 -> LET a == Sub(co[2], co[1])  b == Sub(co[3], co[1]) IN a[1] * b[2] - a[2] * b[1]
     [] Len(co) = 4 -> Dot(Sub(co[2], co[1]), Cross(Sub(co[3], co[1]), Sub(co[4], co[1]))))
Total(s) == LET RECURSIVE T(_)
                T(i) == IF i = 0 THEN 0 ELSE s[i] + T(i - 1) IN T(Len(s))
(* times the factorial of the dimension; 0 for a point *)
Size(co) == LET dim == Len(co[1])
                t == Simplices(dim, Len(co))
            IN Total([k \in DOMAIN t |-> SimplexSize([i \in DOMAIN t[k] |-> co[t[k][i]]])])
(* -------- the divisions the documentation shows -------- *)
(* new nodes are averages of vertices; sub-elements in the numbering of their shape *)
Tri(k) ==
   CASE k = 0 -> [new |-> <<>>, subs |-> <<<<1, 2, 3>>>>]
     [] k = 1 -> [new |-> <<{1, 2}>>, subs |-> <<<<1, 4, 3>>, <<4, 2, 3>>>>]
     [] k = 2 -> [new |-> <<{1, 3}>>, subs |-> <<<<1, 2, 4>>, <<4, 2, 3>>>>]
     [] k = 3 -> [new |-> <<{2, 3}>>, subs |-> <<<<1, 4, 3>>, <<1, 2, 4>>>>]
     [] k = 4 -> [new |-> <<{1, 2}, {1, 3}, {2, 3}>>, subs |-> <<<<1, 4, 5>>, <<4, 2, 6>>, <<5, 6, 3>>, <<6, 5, 4>>>>]
     [] k = 5 -> [new |-> <<{1, 2}, {1, 3}, {2, 3}, {1, 2, 3}>>, subs |-> <<<<1, 4, 5, 7>>, <<2, 6, 4, 7>>, <<3, 5, 6, 7>>>>]
     [] k = 6 -> [new |-> <<{1, 2}, {2, 3}>>, subs |-> <<<<1, 4, 3, 5>>, <<4, 2, 5>>>>]
     [] k = 7 -> [new |-> <<{1, 3}, {2, 3}>>, subs |-> <<<<1, 2, 4, 5>>, <<4, 5, 3>>>>]
     [] k = 8 -> [new |-> <<{1, 2}, {1, 3}>>, subs |-> <<<<1, 4, 5>>, <<4, 2, 5, 3>>>>]
Squ(k) ==
   CASE k = 0 -> [new |-> <<>>, subs |-> <<<<1, 2, 3, 4>>>>]
     [] k = 1 -> [new |-> <<{1, 2}, {3, 4}>>, subs |-> <<<<1, 5, 3, 6>>, <<5, 2, 6, 4>>>>]
     [] k = 2 -> [new |-> <<{1, 3}, {2, 4}>>, subs |-> <<<<1, 2, 5, 6>>, <<5, 6, 3, 4>>>>]
     [] k = 3 -> [new |-> <<{1, 2}, {1, 3}, {2, 4}, {3, 4}, {1, 2, 3, 4}>>, subs |-> <<<<1, 5, 6, 9>>, <<5, 2, 9, 7>>, <<6, 9, 3, 8>>, <<9, 7, 8, 4>>>>]
Whole(n) == [new |-> <<>>, subs |-> <<[i \in 1..n |-> i]>>]
Average(co, set) == LET s == Cardinality(set)
                        RECURSIVE Acc(_)
                        Acc(q) == IF q = {} THEN [d \in DOMAIN co[1] |-> 0] ELSE LET x == CHOOSE y \in q : TRUE IN Add(co[x], Acc(q \ {x}))
                        t == Acc(set)
                    IN [d \in DOMAIN t |-> t[d] \div s]
NodesOf(co, t) == co \o [i \in DOMAIN t.new |-> Average(co, t.new[i])]
Children(co, t) == LET nd == NodesOf(co, t) IN [i \in DOMAIN t.subs |-> [j \in DOMAIN t.subs[i] |-> nd[t.subs[i][j]]]]
(* cells as sets of positions *)
Cells(co, t) == {SetOf(x) : x \in SetOf(Children(co, t))}
(* extruded along the last direction: levels is the sequence of heights *)
Extruded(cells, levels) == {{p \o <<z>> : p \in cell, z \in {levels[i], levels[i + 1]}} : cell \in cells, i \in 1..(Len(levels) - 1)}
Unit(n) == CASE n = 2 -> <<<<0 - 12>>, <<12>>>>
             [] n = 3 -> <<<<0, 0>>, <<12, 0>>, <<0, 12>>>>
             [] n = 4 -> <<<<0 - 12, 0 - 12>>, <<12, 0 - 12>>, <<0 - 12, 12>>, <<12, 12>>>>
FullZ == <<0 - 12, 12>>
HalfZ == <<0 - 12, 0, 12>>
Shown(shape, k, co) ==
   CASE shape = "line" -> IF k = 0 THEN {SetOf(Unit(2))} ELSE {{<<0 - 12>>, <<0>>}, {<<0>>, <<12>>}}
     [] shape = "triangle" -> Cells(Unit(3), Tri(k))
     [] shape = "square" -> Cells(Unit(4), Squ(k))
     [] shape = "prism" -> IF k = 5 THEN Extruded(Cells(Unit(3), Tri(0)), HalfZ)
                           ELSE Extruded(Cells(Unit(3), Tri(IF k <= 4 THEN k ELSE k - 1)), FullZ)
     [] shape = "cube" -> Extruded(Cells(Unit(4), Squ(CASE k \in {0, 3} -> 0 [] k \in {1, 5} -> 1 [] k \in {2, 6} -> 2 [] k \in {4, 7} -> 3)),
                                   IF k \in {3, 5, 6, 7} THEN HalfZ ELSE FullZ)
     [] OTHER -> {SetOf(co)}
(* -------- what every division has to satisfy -------- *)
(* m.v: vertices; m.f: facets (vertex numbers); m.new: new nodes; m.subs: [nd: nodes, f: facets]             *)
All(m) == m.v \o m.new
SubPositions(m, s) == LET nd == All(m) IN [j \in DOMAIN s.nd |-> nd[s.nd[j]]]
InRange(m) == LET n == Len(m.v) + Len(m.new) IN \A i \in DOMAIN m.subs : Distinct(m.subs[i].nd) /\ \A j \in DOMAIN m.subs[i].nd : m.subs[i].nd[j] \in 1..n
Used(m) == UNION {SetOf(m.subs[i].nd) : i \in DOMAIN m.subs} = 1..(Len(m.v) + Len(m.new))
(* sub-elements are not degenerate and together as large as the whole *)
Fills(m) == LET dim == Len(m.v[1]) IN dim = 0 \/
   LET sz == [i \in DOMAIN m.subs |-> Size(SubPositions(m, m.subs[i]))]
   IN (\A i \in DOMAIN sz : sz[i] > 0) /\ Total(sz) = Size(m.v)
Sides(m) == {<<i, l>> : i \in DOMAIN m.subs, l \in 1..8}
SideNodes(m, x) == {m.subs[x[1]].nd[k] : k \in SetOf(m.subs[x[1]].f[x[2]])}
Existing(m) == {x \in Sides(m) : x[2] \in DOMAIN m.subs[x[1]].f}
(* a side of a sub-element belongs to the boundary once, or is shared by two; outer: the sides the division declares to be outer *)
Conforms(m, outer) ==
   LET sd == Existing(m)
       nodes == [x \in sd |-> SideNodes(m, x)]
   IN /\ SetOf(outer) \subseteq sd
      /\ Distinct(outer)
      /\ \A x \in sd : LET same == {y \in sd : nodes[y] = nodes[x]} IN
            IF x \in SetOf(outer) THEN same = {x} ELSE Cardinality(same) = 2
(* weights of vertices of a facet (point, line, triangle, square) at a point in 12ths, over 576 *)
FacetWeight(dim, n, v, q) ==
   CASE n = 1 -> 576
     [] n = 2 -> 24 * (12 + Sign(v, 0) * q[1])
     [] n = 3 -> 48 * (IF v = 1 THEN 12 - q[1] - q[2] ELSE q[v - 1])
     [] n = 4 -> (12 + Sign(v, 0) * q[1]) * (12 + Sign(v, 1) * q[2])
(* facet i of the whole is divided as fm (a division of the facet's shape), its nodes being nd, its parts the sides sub *)
Placed(m, i, q) == LET co == [k \in DOMAIN m.f[i] |-> m.v[m.f[i][k]]]
                       n == Len(co)  dim == Len(m.v[1]) - 1
                   IN [d \in 1..(dim + 1) |-> Total([v \in 1..n |-> FacetWeight(dim, n, v, q) * co[v][d]])]
FacetOK(m, i, fm, nd, sub) ==
   LET nb == Len(m.f[i])
       all == All(m)
   IN /\ Len(fm.v) = nb
      /\ Len(nd) = nb + Len(fm.new)
      /\ \A k \in DOMAIN nd : nd[k] \in DOMAIN all
      /\ SubSeq(nd, 1, nb) = m.f[i]
      /\ \A k \in 1..Len(fm.new) : [d \in DOMAIN all[1] |-> 576 * all[nd[nb + k]][d]] = Placed(m, i, fm.new[k])
      /\ Len(sub) = Len(fm.subs)
      /\ \A j \in DOMAIN sub : sub[j] \in Existing(m) /\ SideNodes(m, sub[j]) = {nd[fm.subs[j].nd[k]] : k \in DOMAIN fm.subs[j].nd}
=============================================================================
