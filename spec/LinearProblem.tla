--------------------------- MODULE LinearProblem ---------------------------
(* C29: a linear problem is given by a matrix per element, the blocks of a matrix per face and source vectors.  *)
(* A mesh is a sequence of elements [id, n, nb]: identifier, number of coefficients, and per facet the          *)
(* neighbouring element (0 at the boundary).  The entries are what the user's functions return; values are in   *)
(* units of 1/64.                                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
Total(s) == SumSeq(s, 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Range(n) == [i \in 1..n |-> i]
(* entries (k, j from one; d is added on the diagonal) *)
OfElement(a, k, j, d) == ((3 * k + 5 * j + 7 * a.id) % 7) - 3 + (IF k = j THEN d ELSE 0)
Within(a, b, k, j)    == ((k + 2 * j + a.id + 3 * b.id) % 5) - 2          \* face between a and b: row and column in a
Across(a, b, k, j)    == ((2 * k + 3 * j + 5 * a.id + 11 * b.id) % 5) - 2  \* row in a, column in b
AtBoundary(a, k, j)   == ((k + j + 2 * a.id) % 5) - 2
Source(a, k, t)         == ((5 * a.id + 3 * k + 2 * t) % 9) - 4
BoundarySource(a, k, t) == ((a.id + k + 3 * t) % 7) - 3
InnerSource(a, b, k)    == ((a.id + 2 * b.id + k) % 7) - 3                 \* only steady problems ask for it
MassEntry(a, k, j)    == IF k = j THEN 1 ELSE IF k % 2 = 1 /\ j = k + 1 THEN 1 + (a.id % 3) ELSE 0
Row(F(_), w, n) == Total([j \in 1..n |-> F(j) * w[j]])
(* the contribution of facet i of element e to row k *)
FacetRow(m, e, i, k, w) ==
   LET f == m[e].nb[i] IN
   IF f = 0 THEN Row(LAMBDA j : AtBoundary(m[e], k, j), w[e], m[e].n)
   ELSE Row(LAMBDA j : Within(m[e], m[f], k, j), w[e], m[e].n) + Row(LAMBDA j : Across(m[e], m[f], k, j), w[f], m[f].n)
Multiply(m, w, d) ==
   [e \in DOMAIN m |-> [k \in 1..m[e].n |->
      Row(LAMBDA j : OfElement(m[e], k, j, d), w[e], m[e].n) + Total([i \in 1..Len(m[e].nb) |-> FacetRow(m, e, i, k, w)])]]
(* in: source terms in the elements; bd: at the boundary *)
Sources(m, t, in, bd, inner) ==
   [e \in DOMAIN m |-> [k \in 1..m[e].n |->
      (IF in THEN Source(m[e], k, t) ELSE 0)
      + Total([i \in 1..Len(m[e].nb) |-> LET f == m[e].nb[i] IN
           IF f = 0 THEN (IF bd THEN BoundarySource(m[e], k, t) ELSE 0) ELSE IF inner THEN InnerSource(m[e], m[f], k) ELSE 0])]]
RightHandSide(m, w, t, in, bd) ==
   LET M == TLCEval(Multiply(m, w, 0))  S == Sources(m, t, in, bd, FALSE) IN [e \in DOMAIN m |-> [k \in 1..m[e].n |-> M[e][k] + 64 * S[e][k]]]
Combination(m, U, vs, q) == [e \in DOMAIN m |-> [k \in 1..m[e].n |-> Total([i \in DOMAIN vs |-> q[i] * U[vs[i]][e][k]])]]
(* the solution x of mass * x = r (the mass matrix of an element consists of 2 by 2 blocks) *)
MassSolve(m, r) == [e \in DOMAIN m |-> [k \in 1..m[e].n |->
      IF k % 2 = 1 /\ k < m[e].n THEN r[e][k] - (1 + (m[e].id % 3)) * r[e][k + 1] ELSE r[e][k]]]
MassTimes(m, x) == [e \in DOMAIN m |-> [k \in 1..m[e].n |-> Row(LAMBDA j : MassEntry(m[e], k, j), x[e], m[e].n)]]
(* steady: the stored matrices times x and the sources cancel.  x in units of 1/scale, rounded *)
RowWeight(m, e, k, d) == Total([j \in 1..m[e].n |-> Abs(OfElement(m[e], k, j, d))]) + 4 * Total([i \in 1..Len(m[e].nb) |-> m[e].n + (IF m[e].nb[i] = 0 THEN 0 ELSE m[m[e].nb[i]].n)])
SteadyOK(m, x, d, scale) ==
   LET M == TLCEval(Multiply(m, x, d))  S == Sources(m, 0, TRUE, TRUE, TRUE) IN
   \A e \in DOMAIN m : \A k \in 1..m[e].n : Abs(M[e][k] + scale * S[e][k]) <= RowWeight(m, e, k, d) + scale \div 10000

(* ---- model: processes multiply with the faces they know, in any order, and then synchronise ---- *)
CONSTANTS NE, NP
VARIABLES owner, todo, res, phase
vars == <<owner, todo, res, phase>>
Mesh == [e \in 1..NE |-> [id |-> e, n |-> 2, nb |-> <<IF e = 1 THEN NE ELSE e - 1, IF e = NE THEN 1 ELSE e + 1>>]]
W == [e \in 1..NE |-> <<e, 3 - e>>]
Procs == 1..NP
Own(p) == {e \in 1..NE : owner[e] = p}
Nb(e) == {Mesh[e].nb[i] : i \in 1..2}
Known(p) == Own(p) \cup UNION {Nb(e) : e \in Own(p)}
Faces == {<<e, 1>> : e \in 1..NE}         \* the face between e and its first neighbour
Other(f) == Mesh[f[1]].nb[1]
FacesOf(p) == {f \in Faces : f[1] \in Known(p) /\ Other(f) \in Known(p)}
Junk == <<77, -77>>
Part(f, side) ==
   LET a == IF side = 1 THEN f[1] ELSE Other(f)  b == IF side = 1 THEN Other(f) ELSE f[1] IN
   [k \in 1..2 |-> Row(LAMBDA j : Within(Mesh[a], Mesh[b], k, j), W[a], 2) + Row(LAMBDA j : Across(Mesh[a], Mesh[b], k, j), W[b], 2)]
Plus(x, y) == [k \in 1..2 |-> x[k] + y[k]]
Init == /\ owner \in [1..NE -> Procs] /\ phase = "elements"
        /\ todo = [p \in Procs |-> {}] /\ res = [p \in Procs |-> [e \in 1..NE |-> Junk]]
Elements == /\ phase = "elements" /\ phase' = "faces" /\ UNCHANGED owner
            /\ todo' = [p \in Procs |-> FacesOf(p)]
            /\ res' = [p \in Procs |-> [e \in 1..NE |-> IF e \in Own(p) THEN [k \in 1..2 |-> Row(LAMBDA j : OfElement(Mesh[e], k, j, 0), W[e], 2)] ELSE res[p][e]]]
OneFace(p) == /\ phase = "faces" /\ \E f \in todo[p] :
                   LET r == [res[p] EXCEPT ![f[1]] = Plus(@, Part(f, 1))] IN
                   res' = [res EXCEPT ![p] = [r EXCEPT ![Other(f)] = Plus(@, Part(f, 2))]] /\ todo' = [todo EXCEPT ![p] = @ \ {f}]
              /\ UNCHANGED <<owner, phase>>
Sync == /\ phase = "faces" /\ \A p \in Procs : todo[p] = {} /\ phase' = "done" /\ UNCHANGED <<owner, todo>>
        /\ res' = [p \in Procs |-> [e \in 1..NE |-> IF e \in Known(p) THEN res[owner[e]][e] ELSE res[p][e]]]
Next == Elements \/ Sync \/ \E p \in Procs : OneFace(p)
Spec == Init /\ [][Next]_vars
Whole == Multiply(Mesh, W, 0)
Equal == phase = "done" => \A p \in Procs : \A e \in Known(p) : res[p][e] = Whole[e]
Linear == LET V == [e \in 1..NE |-> <<2, e * e>>]  A == Multiply(Mesh, W, 0)  B == Multiply(Mesh, V, 0)
              C == Multiply(Mesh, [e \in 1..NE |-> [k \in 1..2 |-> 3 * W[e][k] - 2 * V[e][k]]], 0)
          IN \A e \in 1..NE : \A k \in 1..2 : C[e][k] = 3 * A[e][k] - 2 * B[e][k]
MassInverse == MassTimes(Mesh, MassSolve(Mesh, W)) = W
=============================================================================
