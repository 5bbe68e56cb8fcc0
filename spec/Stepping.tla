------------------------------ MODULE Stepping ------------------------------
(* Explicit time stepping on a mesh, as one process would do it. Coefficients and times are integers in     *)
(* units of 1/64. A mesh is a sequence of elements [id, n, nb]: identifier, number of coefficients, and per *)
(* facet the neighbouring element (0 at the boundary). The state is U[v][e]: the coefficients of vector v.  *)
EXTENDS Integers, Sequences, TLC
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
Total(s) == SumSeq(s, 1)
(* the right hand side the user supplies: interior part, coupling to a neighbour, boundary part *)
Interior(el, c, t) == [k \in 1..el.n |-> 64 * (((3 * c[k] + 2 * c[(k % el.n) + 1] + 7 * el.id + 5 * t + (k - 1)) % 61) - 30)]
Coupling(el, nb, c, d, t) == [k \in 1..el.n |-> 64 * (((2 * c[k] + 3 * d[((k - 1) % nb.n) + 1] + 11 * nb.id + el.id + t + (k - 1)) % 53) - 26)]
Boundary(el, c, t) == [k \in 1..el.n |-> 64 * (((c[k] + 4 * t + (k - 1)) % 47) - 23)]
(* w[e]: the coefficients the right hand side is applied to *)
RightHandSide(m, w, t) ==
   [e \in DOMAIN m |->
      LET parts == <<Interior(m[e], w[e], t)>> \o
                   [i \in 1..Len(m[e].nb) |-> LET f == m[e].nb[i] IN
                      IF f = 0 THEN Boundary(m[e], w[e], t) ELSE Coupling(m[e], m[f], w[e], w[f], t)]
      IN [k \in 1..m[e].n |-> Total([i \in DOMAIN parts |-> parts[i][k]])]]
Mass(m, w) == [e \in DOMAIN m |-> [k \in 1..m[e].n |-> (1 + (m[e].id % 3)) * w[e][k]]]
Initial(m, t, o) == [e \in DOMAIN m |-> [k \in 1..m[e].n |-> 64 * ((5 * m[e].id + 3 * (k - 1) + t + o) % 17)]]
(* coefficients q in 64ths *)
Combination(m, U, vs, q) == [e \in DOMAIN m |-> [k \in 1..m[e].n |-> Total([i \in DOMAIN vs |-> (q[i] * U[vs[i]][e][k]) \div 64])]]
Derivative(m, U, vs, q, t) == Mass(m, RightHandSide(m, Combination(m, U, vs, q), t))
(* one step of the scheme tab = [s, a, b, c]: vector 1 is the solution, vector i + 1 holds stage i *)
RECURSIVE Stages(_, _, _, _, _, _)
Stages(m, tab, U, t, dt, i) ==
   IF i > tab.s THEN U
   ELSE LET vs == [j \in 1..i |-> j]
            q == [j \in 1..i |-> IF j = 1 THEN 64 ELSE dt * tab.a[i][j - 1]]
            K == TLCEval(Derivative(m, U, vs, q, t + dt * tab.c[i]))
        IN Stages(m, tab, [U EXCEPT ![i + 1] = K], t, dt, i + 1)
Step(m, tab, U, t, dt) ==
   LET W == Stages(m, tab, U, t, dt, 1)
   IN [W EXCEPT ![1] = TLCEval(Combination(m, W, [j \in 1..(tab.s + 1) |-> j], [j \in 1..(tab.s + 1) |-> IF j = 1 THEN 64 ELSE dt * tab.b[j - 1]]))]
(* norms that are reduced over all elements *)
ErrorSquared(m, w, t) == Total([e \in DOMAIN m |-> (t + Total(w[e])) % 41])
MaxOver(S) == CHOOSE x \in S : \A y \in S : y <= x
MaxError(m, w, t, u) == MaxOver({0} \cup {(t + 3 * (u - 1) + Total([k \in 1..m[e].n |-> w[e][k] * (1 + ((k + u) % 2))])) % 43 : e \in DOMAIN m})
EstimateMod(m, tab, U) == Total([e \in DOMAIN m |-> Total([k \in 1..m[e].n |->
    LET d == Total([i \in 1..tab.s |-> tab.e[i] * (U[i + 1][e][k] \div 64)]) IN d * d]) % 65521]) % 65521
RECURSIVE ISqrt(_, _, _)
ISqrt(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid <= x THEN ISqrt(x, mid, hi) ELSE ISqrt(x, lo, mid)
NormBelow(m, w) == Total([e \in DOMAIN m |-> ISqrt(100 * Total([k \in 1..m[e].n |-> (w[e][k] \div 64) * (w[e][k] \div 64)]), 0, 46340)])
=============================================================================
