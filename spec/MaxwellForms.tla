---------------------------- MODULE MaxwellForms ----------------------------
(* C32: the symmetric interior penalty forms of the curl-curl equation on simplices, for fields that are linear on  *)
(* every element and differ from element to element.  Vertices are integers (eighths of a unit); a field is         *)
(* b + A (X - X0) with the first vertex X0 of its element.  All forms are given as integers; next to each is the    *)
(* factor by which the value in physical units was multiplied (d: dimension).                                       *)
(* An element: co (vertices), nd (their nodes), eps, mu, and fields by name.  Kinds of faces: 0 between two         *)
(* elements, 1 Dirichlet, 2 Neumann, 3 Silver-Mueller (impedance).                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE FaceGeometry
P == INSTANCE Polytopes
Total(s) == LET RECURSIVE G(_)
                G(i) == IF i = 0 THEN 0 ELSE s[i] + G(i - 1) IN G(Len(s))
Abs(x) == IF x < 0 THEN 0 - x ELSE x
DotP(a, b) == Dot(a, b)
VecSum(s) == TLCEval([d \in DOMAIN s[1] |-> Total([i \in DOMAIN s |-> s[i][d]])])
At(f, co, x) == TLCEval([i \in DOMAIN f.b |-> f.b[i] + Dot(f.A[i], Sub(x, co[1]))])
Values(f, co) == TLCEval([i \in DOMAIN co |-> At(f, co, co[i])])
(* a vector of two components with one of them zero in 2D *)
Curl(f) == LET A == f.A IN
   IF Len(A) = 2 THEN <<A[2][1] - A[1][2], 0>> ELSE <<A[3][2] - A[2][3], A[1][3] - A[3][1], A[2][1] - A[1][2]>>
CrossD(a, b) == IF Len(a) = 2 THEN <<a[1] * b[2] - a[2] * b[1], 0>> ELSE Cross(a, b)
Det(co) == LET a == Sub(co[2], co[1])  b == Sub(co[3], co[1]) IN
   Abs(IF Len(a) = 2 THEN a[1] * b[2] - a[2] * b[1] ELSE Dot(Cross(a, b), Sub(co[4], co[1])))
(* sums of products of linear functions with these values in the vertices *)
Pairing(a, b) == Total([i \in DOMAIN a |-> Dot(a[i], b[i])]) + Dot(VecSum(a), VecSum(b))
-----------------------------------------------------------------------------
(* integral of u.v: d! 8^d (d+1)(d+2) *)
InnerProduct(co, u, v) == Det(co) * Pairing(Values(u, co), Values(v, co))
Mass(e) == e.eps * InnerProduct(e.co, e.u, e.v)
(* integral of curl u . curl v / mu: mu d! 8^(d-2) *)
Stiffness(e) == Det(e.co) * Dot(Curl(e.u), Curl(e.v))
(* integral of eps u . grad: d! 8^(d-1) (d+1) *)
Projector(e, g) == e.eps * Det(e.co) * Dot(g, VecSum(Values(e.u, e.co)))
-----------------------------------------------------------------------------
(* faces: N is the outward normal of the left element with the length of the parallelogram *)
N(co, fa) == IF Len(fa) = 2 THEN LET t == Sub(fa[2], fa[1]) IN Times(Side(co, fa), <<t[2], 0 - t[1]>>)
             ELSE Times(Side(co, fa), Cross(Sub(fa[2], fa[1]), Sub(fa[3], fa[1])))
RECURSIVE Ordered(_)
Ordered(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m - 1>> \o Ordered(s \ {m})
FacetOf(e, k) == Ordered(P!FacetTable(Len(e.co[1]), Len(e.co))[k + 1])
(* vertices of the face in both elements, in the same order *)
LeftVertices(a, k) == Pick(a.co, FacetOf(a, k))
RightVertices(a, k, b, l) == LET f == FacetOf(a, k)  g == FacetOf(b, l)  m == Matched(a.nd, f, b.nd, g)
                             IN [i \in DOMAIN m |-> b.co[g[m[i]] + 1]]
On(f, co, vs) == [i \in DOMAIN vs |-> At(f, co, vs[i])]
Jump(x, y) == [i \in DOMAIN x |-> Sub(x[i], y[i])]
Longest(fa) == LET S == {Dot(Sub(fa[i], fa[j]), Sub(fa[i], fa[j])) : i, j \in DOMAIN fa} IN CHOOSE x \in S : \A y \in S : y <= x
(* - {curl u / mu} . [n x v] - [n x u] . {curl v / mu} between elements: 2 muL muR 8^(d-2) d!, ju, jv: jumps *)
Coupling(n, ul, ur, vl, vr, ml, mr, ju, jv) ==
   0 - (Dot(Add(Times(mr, Curl(ul)), Times(ml, Curl(ur))), CrossD(n, VecSum(jv)))
        + Dot(CrossD(n, VecSum(ju)), Add(Times(mr, Curl(vl)), Times(ml, Curl(vr)))))
(* on a Dirichlet boundary: mu 8^(d-2) d! *)
CouplingD(n, u, v, uu, vv) == 0 - (Dot(Curl(u), CrossD(n, VecSum(vv))) + Dot(CrossD(n, VecSum(uu)), Curl(v)))
(* [n x u] . [n x v] / h: |N| h 8^(d-2) d! (d+1) *)
Tangential(n, x, y) == Pairing([i \in DOMAIN x |-> CrossD(n, x[i])], [i \in DOMAIN y |-> CrossD(n, y[i])])
(* n x u . mu curl v with the fields u and v: the energy that leaves the left element with u + i v, averaged over    *)
(* both sides (4 on faces between elements), mu w 8^(d-2) d!.  su, sv: sums of the values in the vertices            *)
Energy(n, su, sv, cu, cv) == Dot(CrossD(n, sv), cu) - Dot(CrossD(n, su), cv)
(* with a constant field e and the curl i b: their own energy, without average and d, and the mixed one (2, d!) *)
EnergyBack(n, e, b) == 0 - Dot(CrossD(n, e), b)
EnergyMixed(n, dim, su, cv, e, b) == 0 - dim * Dot(CrossD(n, e), cv) - Dot(CrossD(n, su), b)
FluxesOK(n, x, ul, ur, vl, vr, a, b) ==
   LET in == Len(x.r) > 0
       su == IF in THEN Add(VecSum(ul), VecSum(ur)) ELSE VecSum(ul)
       sv == IF in THEN Add(VecSum(vl), VecSum(vr)) ELSE VecSum(vl)
       cu == IF in THEN Add(Curl(a.u), Curl(b.u)) ELSE Curl(a.u)
       cv == IF in THEN Add(Curl(a.v), Curl(b.v)) ELSE Curl(a.v)
       left == <<Energy(n, su, sv, cu, cv), EnergyBack(n, x.bg, x.bk), EnergyMixed(n, Len(n), su, cv, x.bg, x.bk), 1>>
       right == <<0 - left[1], 0 - left[2], 0 - left[3], 1>>
   IN x.fl = (IF ~in THEN <<left>> ELSE IF a.mu = b.mu THEN <<left, right>> ELSE <<>>)
-----------------------------------------------------------------------------
(* scalar fields b + a (X - X0), and the mixed forms with the divergence *)
SAt(f, co, x) == f.b + Dot(f.a, Sub(x, co[1]))
SOn(f, co, vs) == TLCEval([i \in DOMAIN vs |-> SAt(f, co, vs[i])])
SJump(x, y) == [i \in DOMAIN x |-> x[i] - y[i]]
SPairing(a, b) == Total([i \in DOMAIN a |-> a[i] * b[i]]) + Total(a) * Total(b)
(* - integral of eps u . grad q: d! 8^(d-1) (d+1) *)
Divergence(e, u, q) == 0 - e.eps * Det(e.co) * Dot(q.a, VecSum(Values(u, e.co)))
(* {eps u . n} [q]: (2 on faces between elements) 8^(d-1) d! (d+1), for the values eps u on the left (plus those on the right) *)
Flow(n, w) == TLCEval([i \in DOMAIN w |-> Dot(n, w[i])])
Plus(x, y) == [i \in DOMAIN x |-> Add(x[i], y[i])]
Scale(k, x) == [i \in DOMAIN x |-> Times(k, x[i])]
=============================================================================
