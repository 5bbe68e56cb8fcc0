----------------------------- MODULE FieldTrace -----------------------------
(* C27: recorded samples of the functions of real elements.  Events: "d"       *)
(* (derivatives on one element) and "s" (which polynomials are combinations).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok
M == INSTANCE FieldFunctions WITH done <- FALSE
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
Vectors(b) == b \in {"nedelec", "ac"}
DerivOK(e) ==
   LET D == e.dim  J == e.J IN
   /\ e.n = Len(e.f) /\ e.n = M!Count(D, e.nv, e.b, e.o)
   /\ M!JacobianOK(J, e.x, D)
   /\ IF ~Vectors(e.b) THEN \A i \in 1..e.n : M!GradientOK(J, e.f[i].s, e.f[i].g, D)
      ELSE LET J8 == [a \in 1..D |-> [i \in 1..D |-> J[a][i] \div 512]] IN
           /\ \A a, i \in 1..D : J[a][i] % 512 = 0
           /\ \A i \in 1..e.n : M!CovariantOK(J8, e.f[i].v, e.f[i].r, D) /\ M!ContravariantOK(J8, e.f[i].h, e.f[i].r, D) /\ M!CurlOK(J8, e.f[i].s, e.f[i].c, D)
SpanOK(e) ==
   LET D == e.dim  vec == Vectors(e.b)  comps == IF vec THEN D ELSE 1 IN
   /\ e.n = M!Count(D, e.nv, e.b, e.o) /\ e.rank = e.n
   /\ S(e.m) = M!Polynomials(D, e.nv, e.b, e.o) /\ Len(e.c) = Len(e.m)
   /\ \A j \in 1..Len(e.m) : \A k \in 1..Len(e.p) : \A a \in 0..(comps - 1) :
        LET m == SubSeq(e.m[j], 1, D)
            v == IF vec /\ e.m[j][D + 1] # a THEN 0 ELSE M!MonomialAt(m, e.p[k], 4096)
        IN M!Reproduced(e.c[j], e.F[(k - 1) * comps + a + 1], v, M!Degree(m), e.n)
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE LET e == Cases[c].ev[p] IN p' = p + 1 /\ c' = c /\ ok' = (IF e.k = "d" THEN DerivOK(e) ELSE SpanOK(e))
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
