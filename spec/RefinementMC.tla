---------------------------- MODULE RefinementMC ----------------------------
(* Repeated division of a triangle or a square: after every history the cells fill the root and do not overlap. *)
EXTENDS Refinement, TLC
CONSTANTS MaxOps
VARIABLES root, cells, hist
vars == <<root, cells, hist>>
Roots == {<<<<0, 0>>, <<144, 0>>, <<0, 144>>>>, <<<<0 - 72, 0 - 72>>, <<72, 0 - 72>>, <<0 - 72, 72>>, <<72, 72>>>>}
Splits(co) == IF Len(co) = 3 THEN {Tri(k) : k \in 1..8} ELSE {Squ(k) : k \in 1..3}
Init == root \in Roots /\ cells = {root} /\ hist = 0
Next == /\ hist < MaxOps
        /\ \E co \in cells : \E t \in Splits(co) : cells' = (cells \ {co}) \cup SetOf(Children(co, t))
        /\ hist' = hist + 1 /\ root' = root
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(q) == IF q = {} THEN 0 ELSE LET x == CHOOSE y \in q : TRUE IN Size(x) + Sum(q \ {x})
(* (averages of three nodes are rounded: the centre of a sub-triangle can be off by less than one unit) *)
Fill == Sum(cells) = Size(root)
NoneEmpty == \A x \in cells : Size(x) > 0
(* strictly inside: on the same side of all edges *)
Around(co) == IF Len(co) = 3 THEN <<1, 2, 3>> ELSE <<1, 2, 4, 3>>
LeftOf(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Inside(p, co) == LET o == Around(co)
                     s == [i \in DOMAIN o |-> LeftOf(co[o[i]], co[o[(i % Len(o)) + 1]], p)]
                 IN (\A i \in DOMAIN s : s[i] > 0) \/ (\A i \in DOMAIN s : s[i] < 0)
(* no vertex and no middle of a cell is strictly inside another *)
Apart == \A x, y \in cells : x # y => ~(\E i \in DOMAIN x : Inside(x[i], y)) /\ ~Inside(Average(x, DOMAIN x), y)
(* every division of one cell is a valid division *)
AsMap(co, t) == [v |-> co, f |-> IF Len(co) = 3 THEN <<<<1, 2>>, <<1, 3>>, <<2, 3>>>> ELSE <<<<1, 2>>, <<1, 3>>, <<2, 4>>, <<3, 4>>>>,
                 new |-> [i \in DOMAIN t.new |-> Average(co, t.new[i])],
                 subs |-> [i \in DOMAIN t.subs |-> [nd |-> t.subs[i], f |-> IF Len(t.subs[i]) = 3 THEN <<<<1, 2>>, <<1, 3>>, <<2, 3>>>> ELSE <<<<1, 2>>, <<1, 3>>, <<2, 4>>, <<3, 4>>>>]]]
Lone(m) == LET sd == Existing(m) IN {x \in sd : {y \in sd : SideNodes(m, y) = SideNodes(m, x)} = {x}}
AsSeq(q) == LET RECURSIVE F(_)
                F(r) == IF r = {} THEN <<>> ELSE LET x == CHOOSE y \in r : TRUE IN <<x>> \o F(r \ {x}) IN F(q)
Valid == hist > 0 \/ \A t \in Splits(root) : LET m == AsMap(root, t) IN
   InRange(m) /\ Used(m) /\ Fills(m) /\ Conforms(m, AsSeq(Lone(m)))
=============================================================================
