--------------------------- MODULE AbsorbingLayers ---------------------------
(* C36: absorbing layers (PML) of DG-Max.                                                                            *)
(* Complex numbers are pairs of integers.  Where a coordinate is stretched by 1 + i r (r = 0 outside of the layer)   *)
(* the permittivity of direction k is the one of the material, times the stretching of the other directions, divided *)
(* by that of k; the permeability likewise; the field divided by the stretching, and its curl by that of the two     *)
(* other directions, are those of the original problem.  Results are given as multiples of 1/n.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Scale(s, a) == <<s * a[1], s * a[2]>>
Conj(a) == <<a[1], 0 - a[2]>>
Stretch(r, k) == IF k \in DOMAIN r THEN <<1, r[k]>> ELSE <<1, 0>>
Others(r, k) == LET o == (1..3) \ {k}  a == CHOOSE x \in o : \A y \in o : x <= y  b == CHOOSE x \in o : \A y \in o : x >= y
                IN Mul(Stretch(r, a), Stretch(r, b))
(* n * m * v * Others / Stretch = y *)
DivOK(r, k, n, m, v, y) == Mul(y, Stretch(r, k)) = Scale(n * m, Mul(v, Others(r, k)))
(* the inverse: n * v * Stretch / (m * Others) = y; in two dimensions the only component of a curl is the third *)
CurlOK(r, k, n, m, v, y) == Scale(m, Mul(y, Others(r, k))) = Scale(n, Mul(v, Stretch(r, k)))
FieldOK(r, k, n, v, y) == Mul(y, Stretch(r, k)) = Scale(n, v)
CurlFieldOK(r, k, n, v, y) == Mul(y, Others(r, k)) = Scale(n, v)

(* Transmission.  A mesh: zn (the zone of every element), names of zones; bf: the faces on the outside, with element  *)
(* e, vertices v (integers); lo, hi: the corners of the domain.  dirs: for every element the directions in which it   *)
(* absorbs (0: not in this one), <<>> when it is no layer.                                                           *)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
SumOver(S, f(_)) == LET RECURSIVE G(_)
                        G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f(x) + G(T \ {x}) IN G(S)
All(v, d, x) == \A i \in DOMAIN v : v[i][d] = x
(* the component of the outward normal *)
Normal(m, f, d) == IF All(f.v, d, m.lo[d]) THEN 0 - 1 ELSE IF All(f.v, d, m.hi[d]) THEN 1 ELSE 0
FarEnd(m, dirs, f) == \E d \in DOMAIN dirs[f.e] : dirs[f.e][d] * Normal(m, f, d) > 0
FacesOf(m, dirs, z) == {i \in DOMAIN m.bf : m.zn[m.bf[i].e] = z /\ FarEnd(m, dirs, m.bf[i])}
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o InOrder(S \ {x})
Layers(m, dirs) == InOrder({z \in DOMAIN m.names : FacesOf(m, dirs, z) # {}})
(* length, or twice the area (triangles, and parallelograms with the second and third vertex next to the first), all  *)
(* in a plane of constant coordinate *)
Cross(p, q, r, a, b) == Abs((q[a] - p[a]) * (r[b] - p[b]) - (q[b] - p[b]) * (r[a] - p[a]))
Size(v) == IF Len(v) = 2 THEN SumOver(DOMAIN v[1], LAMBDA d : Abs(v[1][d] - v[2][d]))
           ELSE (IF Len(v) = 4 THEN 2 ELSE 1) * (Cross(v[1], v[2], v[3], 1, 2) + Cross(v[1], v[2], v[3], 2, 3) + Cross(v[1], v[2], v[3], 3, 1))
Area(m, F) == SumOver(F, LAMBDA i : Size(m.bf[i].v))
Total(m, F, w(_)) == SumOver(F, LAMBDA i : w(m.bf[i].e))

(* Materials from zones: the first pattern that the name fits.  A pattern: kind (1: the name, 2: its beginning,       *)
(* 3: any name), text; names and texts are sequences of numbers.                                                     *)
Fits(p, name) == \/ p.kind = 3
                 \/ p.kind = 1 /\ name = p.text
                 \/ p.kind = 2 /\ Len(name) >= Len(p.text) /\ SubSeq(name, 1, Len(p.text)) = p.text
(* 0: no material *)
Material(ps, default, name) ==
   LET ok == {i \in DOMAIN ps : Fits(ps[i], name)}
   IN IF ok = {} THEN default ELSE ps[CHOOSE i \in ok : \A j \in ok : i <= j].eps
=============================================================================
