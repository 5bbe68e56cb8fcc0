-------------------------- MODULE StructuredTrace --------------------------
(* C07: recorded generated meshes. *)
EXTENDS Structured, TLC, Json, IOUtils
VARIABLES c, p, ok
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
EventOK(q, e) == CASE e.c = "dump" -> MeshOK(q, e.m) [] e.c = "valid" -> e.v = TRUE [] OTHER -> FALSE
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE c' = c /\ p' = p + 1 /\ ok' = EventOK(Cases[c].q, Cases[c].ev[p])
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
