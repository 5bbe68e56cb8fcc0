--------------------------- MODULE MeshReadTrace ---------------------------
(* C05: what every process reports after reading a file must be what         *)
(* DistMesh says it keeps.  x.k is the file index Python matched (0: none).  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok
D == INSTANCE DistMesh WITH MaxE <- 0, MaxN <- 0, NP <- 1, NodesPer <- 0,
       M <- 0, pos <- 0, nextId <- 0, kept <- 0, push <- 0, pull <- 0
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
NoDup(q) == Cardinality(S(q)) = Len(q)
Ks(q) == [i \in 1..Len(q) |-> q[i].k]

ElementsOK(M, r, R) ==
    LET L == TLCEval(D!Local(M, r)) IN
    /\ NoDup(Ks(R.el)) /\ S(Ks(R.el)) = L
    /\ \A i \in 1..Len(R.el) : LET e == R.el[i] IN
          /\ e.co = M.co[e.k] /\ e.z = M.zo[e.k] /\ e.ow = M.ow[e.k] /\ e.own = (M.ow[e.k] = r)
    /\ NoDup(R.loc) /\ S(R.loc) = {R.el[i].id : i \in {j \in 1..Len(R.el) : M.ow[R.el[j].k] = r}}

(* file index of the element with a given identifier on this process *)
KOf(R) == [id \in {R.el[i].id : i \in 1..Len(R.el)} |-> (CHOOSE e \in S(R.el) : e.id = id).k]
(* an entity's incidences, in file indices *)
Mapped(kof, in) == {<<kof[in[i][1]], in[i][2]>> : i \in 1..Len(in)}
KnownIds(kof, in) == \A i \in 1..Len(in) : in[i][1] \in DOMAIN kof

EntitiesOK(M, r, R, kind, kof, Incs) ==
    LET X == R[kind]
        want == TLCEval({x \in 1..D!Count(M, kind) : D!Kept(M, r, Incs[x]) # {}})
    IN /\ NoDup(Ks(X)) /\ S(Ks(X)) = want
       /\ \A i \in 1..Len(X) : LET x == X[i] IN
             /\ KnownIds(kof, x.in)
             /\ Mapped(kof, x.in) = D!Kept(M, r, Incs[x.k])
             /\ Len(x.in) = Cardinality(Mapped(kof, x.in))

(* the element's own lists point to exactly the entities incident to it *)
BackOK(R, kind, slot) ==
    /\ \A i \in 1..Len(R[kind]) : LET x == R[kind][i] IN \A j \in 1..Len(x.in) :
          \E e \in S(R.el) : e.id = x.in[j][1] /\ x.in[j][2] + 1 \in 1..Len(e[slot]) /\ e[slot][x.in[j][2] + 1] = x.id
BackCount(M, R, kind, slot) ==
    \A i \in 1..Len(R.el) : LET e == R.el[i] IN
       Len(e[slot]) = Cardinality({<<x, j>> \in (1..Len(R[kind])) \X (1..24) : j <= Len(R[kind][x].in) /\ R[kind][x].in[j][1] = e.id})

ClassOK(M, r, f, I) ==
    LET cl == D!FaceClass(M, r, I) IN
    CASE cl = "boundary" -> f.t \in {0, 1} /\ ~f.sub
      [] cl = "partial" -> f.t = 7 /\ ~f.sub
      [] cl = "internal" -> f.t \in {2, 3} /\ ~f.sub
      [] cl = "subdomain" -> f.t \in {4, 5} /\ f.sub
      [] cl = "any" -> f.t \in {2, 3, 4, 5}
FacesOK(M, r, R, Incs) ==
    /\ \A i \in 1..Len(R.fa) : ClassOK(M, r, R.fa[i], Incs[R.fa[i].k])
    /\ NoDup(R.lfa)
    \* the iteration over local faces may also visit faces between two ghosts
    /\ S(R.lfa) \subseteq {R.fa[i].id : i \in 1..Len(R.fa)}
    /\ {R.fa[i].id : i \in {j \in 1..Len(R.fa) : r \in D!OwnersOf(M, D!Kept(M, r, Incs[R.fa[j].k]))}} \subseteq S(R.lfa)

RankOK(M, r, R) ==
    /\ ElementsOK(M, r, R)
    /\ LET kof == TLCEval(KOf(R))
           fi == TLCEval([x \in 1..D!Count(M, "fa") |-> D!Inc(M, "fa", x)])
           ei == TLCEval([x \in 1..D!Count(M, "ed") |-> D!Inc(M, "ed", x)])
           ni == TLCEval([x \in 1..D!Count(M, "no") |-> D!Inc(M, "no", x)])
       IN /\ EntitiesOK(M, r, R, "fa", kof, fi) /\ EntitiesOK(M, r, R, "ed", kof, ei) /\ EntitiesOK(M, r, R, "no", kof, ni)
          /\ FacesOK(M, r, R, fi)
          /\ BackOK(R, "fa", "fa") /\ BackOK(R, "ed", "ed") /\ BackOK(R, "no", "nd")
          /\ BackCount(M, R, "fa", "fa") /\ BackCount(M, R, "ed", "ed") /\ BackCount(M, R, "no", "nd")

(* the same identifier for the same object, on all processes *)
IdsOK(Rs, kind) ==
    LET prs == TLCEval(UNION {{<<Rs[q][kind][i].k, Rs[q][kind][i].id>> : i \in 1..Len(Rs[q][kind])} : q \in 1..Len(Rs)})
    IN /\ Cardinality({x[1] : x \in prs}) = Cardinality(prs)
       /\ Cardinality({x[2] : x \in prs}) = Cardinality(prs)
(* every face, edge, node is owned by exactly one of the processes that have it *)
OwnedOnce(Rs, kind) ==
    LET all == UNION {S(Ks(Rs[q][kind])) : q \in 1..Len(Rs)}
        own == TLCEval(UNION {{<<q, x.k>> : x \in {y \in S(Rs[q][kind]) : y.own}} : q \in 1..Len(Rs)})
    IN Cardinality(own) = Cardinality(all) /\ {x[2] : x \in own} = all

EvOK(M, e) ==
    /\ D!ValidFile(M)
    /\ \A r \in 1..M.np : RankOK(M, r, e.r[r])
    /\ \A kind \in {"el", "fa", "ed", "no"} : IdsOK(e.r, kind) /\ OwnedOnce(e.r, kind)

TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE /\ ok' = EvOK(Cases[c].m, Cases[c].ev[p])
                 /\ p' = p + 1 /\ c' = c
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
