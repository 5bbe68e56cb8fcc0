------------------------- MODULE PullRequestsTrace -------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, push, pull, pend
R == INSTANCE PullRequests WITH NP <- 0, NE <- 0, MaxOps <- 0, own <- 0, know <- 0, n <- 0, hist <- 0
D == INSTANCE DistMesh WITH MaxE <- 0, MaxN <- 0, NP <- 1, NodesPer <- 0,
       M <- 0, pos <- 0, nextId <- 0, kept <- 0, push <- 0, pull <- 0
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
(* Elements are file indices (Python maps identifiers; 0 = not an element); additional elements follow. *)
Flags(e, np) == \A a, b \in 1..np :
    /\ \A i \in 1..Len(e.r[a].pushown[b]) : e.r[a].pushown[b][i]
    /\ \A i \in 1..Len(e.r[a].pullown[b]) : ~e.r[a].pullown[b][i]
    /\ ~e.r[a].outside
(* the first lists: those of the file *)
FirstOK(M, e) == \A a, b \in 1..M.np :
    /\ e.r[b].pull[a] = e.r[a].push[b]
    /\ S(e.r[a].push[b]) = S(D!PushList(M, a, b))
    /\ Len(e.r[a].push[b]) = Cardinality(S(e.r[a].push[b]))
Pulls(e, np) == [a \in 1..np |-> e.r[a].pull]
Pushs(e, np) == [a \in 1..np |-> e.r[a].push]
ListOK(cs, e) == /\ Flags(e, cs.m.np)
                 /\ IF pull = <<>> THEN FirstOK(cs.m, e)
                    ELSE R!Processed(1..cs.m.np, cs.own, push, pull, pend, Pushs(e, cs.m.np), Pulls(e, cs.m.np))
NoPend(np) == [a \in 1..np |-> {}]
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ push = <<>> /\ pull = <<>> /\ pend = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ push' = <<>> /\ pull' = <<>> /\ pend' = <<>>
            ELSE LET cs == Cases[c] e == cs.ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ IF e.c = "lists"
                    THEN /\ ok' = ListOK(cs, e)
                         /\ pull' = Pulls(e, cs.m.np) /\ push' = Pushs(e, cs.m.np) /\ pend' = NoPend(cs.m.np)
                    ELSE /\ ok' = TRUE /\ UNCHANGED <<push, pull>>
                         /\ pend' = [a \in 1..cs.m.np |-> (IF pend = <<>> THEN {} ELSE pend[a]) \cup S(e.req[a])]
TSpec == TInit /\ [][TNext]_<<c, p, ok, push, pull, pend>>
TraceOK == ok
=============================================================================
