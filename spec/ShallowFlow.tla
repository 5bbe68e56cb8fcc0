---------------------------- MODULE ShallowFlow ----------------------------
(* Shallow layers of grains: heights a*a (so that waves have the speed a), velocity (u, v), gravity one, no slope.   *)
(* The exchange over a face is the flux of the two-wave approximate Riemann problem (HLL). Normals are five times    *)
(* unit normals, fluxes are in units of 1/1024.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets
St(a, u, v) == [h |-> a * a, a |-> a, u |-> u, v |-> v]
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Abs(x) == IF x < 0 THEN -x ELSE x
(* Round to the nearest. *)
Div(x, y) == (2 * x + y) \div (2 * y)
Speed(s, n) == s.u * n[1] + s.v * n[2]                    \* five times the speed along the normal
Cons(s) == <<s.h, s.h * s.u, s.h * s.v>>
Flux10(s, n) == <<2 * s.h * Speed(s, n), 2 * s.h * s.u * Speed(s, n) + s.h * s.h * n[1], 2 * s.h * s.v * Speed(s, n) + s.h * s.h * n[2]>>
Exact(s, n) == [i \in 1..3 |-> Div(Flux10(s, n)[i] * 512, 5)]
Slow(l, r, n) == Min2(Speed(l, n) - 5 * l.a, Speed(r, n) - 5 * r.a)
Fast(l, r, n) == Max2(Speed(l, n) + 5 * l.a, Speed(r, n) + 5 * r.a)
Hll(l, r, n) == LET sl == Slow(l, r, n)  sr == Fast(l, r, n) IN
   IF sl >= 0 THEN Exact(l, n) ELSE IF sr <= 0 THEN Exact(r, n)
   ELSE [i \in 1..3 |-> Div((sr * Flux10(l, n)[i] - sl * Flux10(r, n)[i] + 2 * sl * sr * (Cons(r)[i] - Cons(l)[i])) * 512, 5 * (sr - sl))]
Opposite(n) == <<-n[1], -n[2]>>
(* Reflection at a wall with this normal: 25 times the reflected velocity. *)
Mirror(s, n) == [s EXCEPT !.u = (25 * s.u - 2 * Speed(s, n) * n[1]) \div 25, !.v = (25 * s.v - 2 * Speed(s, n) * n[2]) \div 25]
(* What leaves through a face of the boundary: 1 downstream, 2 upstream with the given inflow, 3 a wall. In one      *)
(* dimension the inflow meets the state in the element, in two dimensions it is imposed.                            *)
Boundary(b, dim, s, n, inflow) ==
   CASE b = 1 -> Exact(s, n)
     [] b = 2 -> IF dim = 1 THEN [i \in 1..3 |-> -Hll(inflow, s, <<5, 0>>)[i]] ELSE Exact(inflow, n)
     [] b = 3 -> Hll(s, Mirror(s, n), n)
(* Limiters: values at the nodes in units of 1/2 before and 1/2048 after; the least height also in units of 1/2048. *)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))
MinOf(f) == CHOOSE x \in {f[i] : i \in DOMAIN f} : \A i \in DOMAIN f : x <= f[i]
Near(x, y, t) == Abs(x - y) <= t
MeanKept(b, a) == Near(Sum(a), 1024 * Sum(b), Len(b) + 1)
Level(b, a) == \A i \in DOMAIN a : Near(a[i] * Len(b), 1024 * Sum(b), 2 * Len(b))
Same(b, a) == \A i \in DOMAIN a : Near(a[i], 1024 * b[i], 1)
LayerOK(b, a, low) ==
   IF 1024 * MinOf(b[1]) >= low THEN \A q \in DOMAIN b : Same(b[q], a[q])
   ELSE IF 1024 * Sum(b[1]) < low * Len(b[1]) THEN Level(b[1], a[1]) /\ \A i \in DOMAIN a[2] : Near(a[2][i], 0, 1)
   ELSE MeanKept(b[1], a[1]) /\ MeanKept(b[2], a[2]) /\ \A i \in DOMAIN a[1] : a[1][i] >= low - 2
AverageOK(b, a, low) == IF 1024 * MinOf(b[1]) >= low THEN \A q \in DOMAIN b : Same(b[q], a[q]) ELSE \A q \in DOMAIN b : Level(b[q], a[q])
(* Limited slopes: the mean stays, the values lie between the means of the neighbours (l, r: twice their means). *)
SlopeOK(b, a, l, r, inside, dx) ==
   LET m == Sum(b)  jump == 32 * Abs(b[2] - b[1]) IN
   /\ MeanKept(b, a)
   /\ (~inside \/ jump < dx * dx) => Same(b, a)
   /\ (inside /\ jump > dx * dx) =>
        IF (m <= l /\ m <= r) \/ (m >= l /\ m >= r) THEN Level(b, a)
        ELSE \A i \in 1..2 : 2 * a[i] >= 1024 * Min2(l, r) - 4 /\ 2 * a[i] <= 1024 * Max2(l, r) + 4
=============================================================================
