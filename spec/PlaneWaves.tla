----------------------------- MODULE PlaneWaves -----------------------------
(* C37: field patterns of DG-Max and the problems made from them, in complex integers.  Wave vectors and frequencies *)
(* are multiples of a unit u, positions and phases such that the phase is a number of quarter turns; curls are given *)
(* in units of u, curls of curls and source terms in units of u^2.  Vectors are padded with zeros to three            *)
(* components; in two dimensions a curl has the third component only.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Conj(a) == <<a[1], 0 - a[2]>>
Re(x) == <<x, 0>>
I == <<0, 1>>
Turn(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>> [] n % 4 = 2 -> <<0 - 1, 0>> [] n % 4 = 3 -> <<0, 0 - 1>>
V(f(_)) == <<f(1), f(2), f(3)>>
VScale(s, v) == V(LAMBDA k : Mul(s, v[k]))
VPlus(a, b) == V(LAMBDA k : Plus(a[k], b[k]))
VMinus(a, b) == V(LAMBDA k : Minus(a[k], b[k]))
VReal(r) == V(LAMBDA k : Re(r[k]))
Cross(a, b) == << Minus(Mul(a[2], b[3]), Mul(a[3], b[2])), Minus(Mul(a[3], b[1]), Mul(a[1], b[3])), Minus(Mul(a[1], b[2]), Mul(a[2], b[1])) >>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Zero == << <<0, 0>>, <<0, 0>>, <<0, 0>> >>
(* a wave: k (integers), E (complex), ph; at position x *)
Field(w, x) == VScale(Turn(Dot(w.k, x) + w.ph), w.E)
Curl(w, x) == VScale(I, Cross(VReal(w.k), Field(w, x)))
(* mu: three integers; the result times their product *)
Prod(mu) == mu[1] * mu[2] * mu[3]
Inverse(mu, v) == V(LAMBDA k : Mul(Re(Prod(mu) \div mu[k]), v[k]))
CurlCurl(w, x, mu) == VScale(I, Cross(VReal(w.k), Inverse(mu, Curl(w, x))))
(* energy flux, times frequency and the product of mu *)
FluxOf(e, curl, mu) == LET f == Cross(e, Inverse(mu, V(LAMBDA k : Conj(curl[k])))) IN <<f[1][2], f[2][2], f[3][2]>>

(* Reflection at the plane where direction d has position c.  n1, n2: refractive indices, z1, z2: ratios              *)
(* sqrt(eps / mu), all integers.  s: the side of the incident wave is where s x < s c.  Fields times z1 + z2.         *)
Reflected(w, d, c, z1, z2) ==
   [k |-> [w.k EXCEPT ![d] = 0 - @], E |-> VScale(Re(z1 - z2), w.E), ph |-> w.ph + 2 * w.k[d] * c]
Transmitted(w, d, c, n1, n2, z1) ==
   LET kt == (w.k[d] * n2) \div n1 IN [k |-> [w.k EXCEPT ![d] = kt], E |-> VScale(Re(2 * z1), w.E), ph |-> w.ph + (w.k[d] - kt) * c]
Both(f(_), w, d, c, z1, z2) == VPlus(VScale(Re(z1 + z2), f(w)), f(Reflected(w, d, c, z1, z2)))
Interface(f(_), i, x) ==
   IF i.s * x[i.d] < i.s * i.c THEN Both(f, i.w, i.d, i.c, i.z1, i.z2) ELSE f(Transmitted(i.w, i.d, i.c, i.n1, i.n2, i.z1))
(* problems: curl mu^-1 curl E - omega^2 eps E, times mu (isotropic materials) *)
Source(e, cc, mu, eps, om) == VMinus(cc, VScale(Re(om * om * eps * mu), e))
(* data on a boundary with outward normal n for a field e and its curl: 1 Dirichlet, 2 Neumann, 3 Silver-Mueller      *)
(* (times mu; z = sqrt(eps / mu))                                                                                    *)
Data(kind, n, e, curl, mu, z, om) ==
   CASE kind = 1 -> VScale(Re(mu), Cross(VReal(n), e))
     [] kind = 2 -> curl
     [] kind = 3 -> VPlus(curl, VScale(<<0, om * z * mu>>, Cross(e, VReal(n))))
=============================================================================
