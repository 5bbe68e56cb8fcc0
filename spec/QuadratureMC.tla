---------------------------- MODULE QuadratureMC ----------------------------
(* (1) The closed forms of the moments agree with integrating coordinate by coordinate.                      *)
(* (2) Which rules two neighbouring elements and their common face use, for every history of assigning       *)
(* orders to elements, when rules of some orders only are available: all of them stay sufficient.            *)
EXTENDS Quadrature, TLC
CONSTANTS MaxOrder, MaxOps
(* orders of the rules of the element (the shape matters) and of its faces *)
Stock == {<<<<1, 5, 7>>, <<1, 3, 5, 7>>>>, <<<<1, 5, 7>>, <<1, 2, 4, 5, 6, 8>>>>, <<<<1, 2, 4, 5, 6, 8>>, <<1, 3, 5, 7>>>>, <<<<1, 3, 5, 7>>, <<1, 3, 5, 7>>>>}
VARIABLES stock, want, elem, face, n
vars == <<stock, want, elem, face, n>>
Least(seq, o) == seq[CHOOSE i \in DOMAIN seq : seq[i] >= o /\ \A j \in DOMAIN seq : seq[j] >= o => i <= j]
Max(a, b) == IF a > b THEN a ELSE b
Init == /\ stock \in Stock \X Stock /\ stock[1][2] = stock[2][2]
        /\ want = <<0, 0>>
        /\ elem = [i \in 1..2 |-> Least(stock[i][1], 0)]
        /\ face = Least(stock[1][2], Max(elem[1], elem[2])) /\ n = 0
(* a rule is replaced only by one of a higher order *)
Assign(i, o) == /\ want' = [want EXCEPT ![i] = o]
                /\ elem' = [elem EXCEPT ![i] = IF 2 * o + 1 > @ THEN Least(stock[i][1], 2 * o + 1) ELSE @]
                /\ face' = IF 2 * o + 1 > face THEN Least(stock[i][2], 2 * o + 1) ELSE face
Next == n < MaxOps /\ n' = n + 1 /\ stock' = stock /\ \E i \in 1..2 : \E o \in 0..MaxOrder : Assign(i, o)
Spec == Init /\ [][Next]_vars
Enough == \A i \in 1..2 : elem[i] >= 2 * want[i] /\ face >= 2 * want[i]
(* ----- moments *)
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
(* integral over 0..1 of x^a (1-x)^b *)
Beta(a, b) == <<Fact(a) * Fact(b), Fact(a + b + 1)>>
Equal(x, y) == x[1] * y[2] = y[1] * x[2]
(* y from 0 to 1-x: (1-x)^(b+1) / (b+1) *)
Tri(a, b) == LET t == Beta(a, b + 1) IN <<t[1], t[2] * (b + 1)>>
(* the same one dimension up: the slice at x is a triangle of size 1-x *)
Tet(a, b, k) == LET t == Beta(a, b + k + 2)  s == Tri(b, k) IN Mul(t, s)
Pyr(a, b, k) == LET t == Beta(k, a + b + 2) IN Mul(t, Mul(OnLine(a), OnLine(b)))
Zero4(a, b, k) == <<a, b, k, 0>>
Moments == \A a, b, k \in 0..4 : a + b + k <= 4 =>
   /\ k = 0 => Equal(Moment("triangle", Zero4(a, b, 0)), Tri(a, b))
   /\ Equal(Moment("tetrahedron", Zero4(a, b, k)), Tet(a, b, k))
   /\ Equal(Moment("pyramid", Zero4(a, b, k)), Pyr(a, b, k))
(* the facets of the reference shapes enclose their volume *)
Reference(s) ==
   CASE s = "triangle" -> <<<<0, 0>>, <<1, 0>>, <<0, 1>>>>
     [] s = "square" -> <<<<0 - 1, 0 - 1>>, <<1, 0 - 1>>, <<0 - 1, 1>>, <<1, 1>>>>
     [] s = "tetrahedron" -> <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
     [] s = "pyramid" -> <<<<0, 0, 1>>, <<0 - 1, 0 - 1, 0>>, <<1, 0 - 1, 0>>, <<0 - 1, 1, 0>>, <<1, 1, 0>>>>
     [] s = "prism" -> <<<<0, 0, 0 - 1>>, <<1, 0, 0 - 1>>, <<0, 1, 0 - 1>>, <<0, 0, 1>>, <<1, 0, 1>>, <<0, 1, 1>>>>
     [] s = "cube" -> <<<<0 - 1, 0 - 1, 0 - 1>>, <<1, 0 - 1, 0 - 1>>, <<0 - 1, 1, 0 - 1>>, <<1, 1, 0 - 1>>, <<0 - 1, 0 - 1, 1>>, <<1, 0 - 1, 1>>, <<0 - 1, 1, 1>>, <<1, 1, 1>>>>
Sorted(s) == LET RECURSIVE F(_)
                 F(q) == IF q = {} THEN <<>> ELSE LET x == CHOOSE y \in q : \A z \in q : y <= z IN <<x - 1>> \o F(q \ {x}) IN F(s)
Volumes == \A s \in {"triangle", "square", "tetrahedron", "pyramid", "prism", "cube"} :
   LET co == Reference(s)
       dim == Len(co[1])
       t == G!FacetTable(dim, Len(co))
       fs == [i \in DOMAIN t |-> Sorted(t[i])]
       a == ElementAll(dim, co, fs)
       rel(d) == co[1][d]
       At(e) == [k \in 1..4 |-> IF k \in DOMAIN e THEN e[k] ELSE 0]
       m0 == Moment(s, <<0, 0, 0, 0>>)
       Unit(d) == [k \in 1..4 |-> IF k = d THEN 1 ELSE 0]
   IN /\ Closed(dim, co, fs)
      /\ a[1] * m0[2] = 2304 * m0[1]
      /\ \A d \in 1..dim : LET m == Moment(s, Unit(d)) IN (a[d + 1] + rel(d) * a[1]) * m[2] = 2304 * m[1]
Reference0 == n > 0 \/ (Moments /\ Volumes)
=============================================================================
