--------------------------- MODULE FluxFacetsTrace ---------------------------
(* C34: recorded facets and fluxes of every process; the harness gives every face the fluxes 1, the number of the   *)
(* element it is seen from, that of the other one, and the wavenumber (twice with a background).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok
F == INSTANCE FluxFacets
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
Number(m, e) == IF e = 0 THEN 0 ELSE
   1 + F!SumOver((DOMAIN m.co[e]) \X (DOMAIN m.co[e][1]), LAMBDA x : (2 * x[2] - 1) * m.co[e][x[1]][x[2]])
EventOK(m, e) ==
   LET z == TLCEval(F!InOrder(F!Facets(m)))
       num == TLCEval([k \in DOMAIN m.zn |-> Number(m, k)])
       N(k) == IF k = 0 THEN 0 ELSE num[k]
       want == TLCEval([i \in DOMAIN z |-> <<F!Flux(m, z[i], LAMBDA a, b : 1), F!Flux(m, z[i], LAMBDA a, b : N(a)),
                                     F!Flux(m, z[i], LAMBDA a, b : N(b)), F!Flux(m, z[i], LAMBDA a, b : e.w)>>])
   IN \A r \in DOMAIN e.r : e.r[r].names = [i \in DOMAIN z |-> F!Name(m, z[i])] /\ e.r[r].fl = want
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE c' = c /\ p' = p + 1 /\ ok' = EventOK(Cases[c].mesh, Cases[c].ev[p])
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
