----------------------------- MODULE MergeTrace -----------------------------
(* C08: recorded histories of merging, cleaning and copying a mesh. *)
EXTENDS PrepMesh, TLC, Json, IOUtils, SequencesExt
VARIABLES c, p, ok, m
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
NoUnused(x) == \A d \in 0..(x.dim - 1) : \A k \in DOMAIN x.en[d + 1] : x.en[d + 1][k] # <<>>
EventOK(e, x) ==
   CASE e.c = "dump" -> Consistent(e.m)
     [] e.c = "built" -> Consistent(e.m) /\ SharedByVertices(e.m)
     [] e.c = "plan" -> /\ \A d \in 0..(x.dim - 1) :
                             LET g == SelectSeq(e.g[d + 1], LAMBDA s : Len(s) > 1) IN
                             /\ {Ran(g[i]) : i \in DOMAIN g} = Groups(x, e.p, d)
                             /\ \A i \in DOMAIN g : Cardinality(Ran(g[i])) = Len(g[i])
                             /\ Cardinality({Ran(g[i]) : i \in DOMAIN g}) = Len(g)
                        /\ MergeOK(x, e.m, e.p)
     [] e.c = "trans" -> MergeOK(x, e.m, SetToSeq(Pairs(x, e.t)))
     [] e.c = "clean" -> Consistent(e.m) /\ Same(x, e.m) /\ NoUnused(e.m)
     [] e.c = "copy" -> Consistent(e.m) /\ Same(x, e.m)
     [] e.c = "valid" -> e.v = TRUE
     [] e.c = "error" -> FALSE
     [] OTHER -> TRUE
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ m = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ m' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ c' = c /\ p' = p + 1 /\ ok' = EventOK(e, m)
                 /\ m' = IF e.c \in {"dump", "built", "plan", "trans", "clean", "copy"} THEN e.m ELSE m
TSpec == TInit /\ [][TNext]_<<c, p, ok, m>>
TraceOK == ok
=============================================================================
