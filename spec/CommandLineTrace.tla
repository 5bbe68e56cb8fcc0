-------------------------- MODULE CommandLineTrace --------------------------
(* C17: every case is one argument list (ev: its tokens) and what the real     *)
(* parser made of it.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, st
L == INSTANCE CommandLine WITH Tokens <- <<>>, MaxLen <- 0, OnlyValid <- FALSE, h <- <<>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
Seen == {"all", "bee", "num", "uns", "dbl", "str", "only", "req"}
Same(x, o) == IF x.mode = "unspecified" THEN o.st # "crash"
              ELSE IF x.mode = "rejected" THEN o.st = "rejected"
              ELSE /\ o.st = "ok" /\ o.done /\ o.prog
                   /\ S(o.used) = x.used \cap Seen
                   /\ \A n \in Seen : o.v[n] = x.v[n]
                   /\ o.rest = x.rest
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ st = L!Start
TNext == /\ c <= Len(Cases)
         /\ IF p <= Len(Cases[c].ev) THEN st' = L!Step(st, Cases[c].ev[p]) /\ p' = p + 1 /\ c' = c /\ ok' = TRUE
            ELSE IF p = Len(Cases[c].ev) + 1 THEN ok' = Same(L!Finish(st, Cases[c].req), Cases[c].o) /\ p' = p + 1 /\ UNCHANGED <<c, st>>
            ELSE c' = c + K /\ p' = 1 /\ ok' = TRUE /\ st' = L!Start
TSpec == TInit /\ [][TNext]_<<c, p, ok, st>>
TraceOK == ok
=============================================================================
