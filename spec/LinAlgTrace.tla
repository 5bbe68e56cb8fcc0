---------------------------- MODULE LinAlgTrace ----------------------------
(* C23: recorded programs of the linear algebra classes.  Every event has the operation, the answer y and    *)
(* all registers afterwards.                                                                                 *)
EXTENDS LinAlg, TLC, Json, IOUtils
VARIABLES c, p, ok, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
(* n: the size of fixed size registers (their entries are zero), 0: registers are empty at first *)
Start(n) == [M |-> [i \in 1..3 |-> Mat(n, n, LAMBDA x, y : Z)], V |-> [i \in 1..3 |-> [x \in 1..n |-> Z]]]
StartOf(k) == IF k <= Len(Cases) THEN Start(Cases[k].n) ELSE Start(0)
Small(x) == x > 0 - 20000 /\ x < 20000
InRange(e) == /\ \A m \in {e.M[i] : i \in 1..3} : \A i \in 1..Len(m.v) : \A j \in 1..Len(m.v[i]) : Small(m.v[i][j][1]) /\ Small(m.v[i][j][2])
              /\ \A v \in {e.V[i] : i \in 1..3} : \A i \in 1..Len(v) : Small(v[i][1]) /\ Small(v[i][2])
Good(e, s) ==
   /\ InRange(e)
   /\ IF e.o \in Relational
      THEN /\ \A i \in 1..3 : (i # e.k \/ e.o \in OnVectors) => e.M[i] = s.M[i]
           /\ \A i \in 1..3 : (i # e.k \/ e.o \notin OnVectors) => e.V[i] = s.V[i]
           /\ Solves(e, s, e.M[e.k], e.V[e.k])
      ELSE LET a == TLCEval(Functional(e, s)) IN e.M = a.M /\ e.V = a.V
   /\ e.o \in Queries => e.y = Answer(e, s, Cases[c].n > 0)
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ st = StartOf(c)
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ st' = StartOf(c + K)
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ ok' = Good(e, st)
                 /\ st' = [M |-> e.M, V |-> e.V]
TSpec == TInit /\ [][TNext]_<<c, p, ok, st>>
TraceOK == ok
=============================================================================
