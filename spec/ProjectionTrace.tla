-------------------------- MODULE ProjectionTrace ---------------------------
(* C30: recorded initial solutions (values at points of all elements, also of ghosts) and error norms. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok
A == INSTANCE Projection WITH NE <- 1, NP <- 1, MaxV <- 1, owner <- 0, val <- 0, sum <- 0, top <- 0, phase <- 0
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
ProjOK(C, e) ==
   /\ {s.k : s \in {s \in UNION {S(e.r[R].s) : R \in 1..Len(e.r)} : s.own = 1}} = 1..C.ne
   /\ \A R \in 1..Len(e.r) : \A i \in 1..Len(e.r[R].s) :
        LET s == e.r[R].s[i] IN Len(s.u) = Len(e.q) /\ \A u \in 1..Len(e.q) : A!Reproduces(e.q[u], s.x, s.u[u], e.t, e.o)
ErrOK(C, e) == \A R \in 1..Len(e.r) : A!TotalOK(e.r[R].e2, C.lo, C.hi, e.plane, e.delta) /\ A!MaxOK(e.r[R].m, C.lo, C.hi, e.plane, e.delta)
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE LET C == Cases[c]  e == C.ev[p] IN p' = p + 1 /\ c' = c /\ ok' = (IF e.c = "proj" THEN ProjOK(C, e) ELSE ErrOK(C, e))
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
