--------------------------- MODULE NumberingTrace ---------------------------
(* C02: the numbering tables recorded on all processes.  Events: "dump" (what *)
(* each process knows of the mesh) and "index" (one per (re)build).           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, mesh
G == INSTANCE GlobalNumbering WITH Topologies <- {}, NP <- 1, Layouts <- {}, US <- {}, Barriers <- TRUE,
   el <- 0, ow <- 0, first <- 0, layout <- 0, pc <- 0, know <- 0, chan <- 0, todo1 <- 0, todo2 <- 0, second <- 0
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
(* rows: kind, id, unknown, count, global first, local first, owned *)
Rows(R) == S(R.tab)
Keys(rows) == {<<x[1], x[2], x[3]>> : x \in rows}
OwnTable(e) == UNION {{<<r, <<x[1], x[2]>>, x[3], x[4], x[5], x[6]>> : x \in {y \in Rows(e.r[r]) : y[7] = 1}} : r \in 1..Len(e.r)}
(* objects a process knows, per kind *)
Objs(D, dim) == {<<0, x.id>> : x \in S(D.el)} \cup {<<1, x.id>> : x \in S(D.fa)} \cup {<<2, x.id>> : x \in S(D.ed)}
                \cup (IF dim > 1 THEN {<<3, x.id>> : x \in S(D.no)} ELSE {})
Agree(e) == LET all == TLCEval(UNION {{<<x[1], x[2], x[3], x[4], x[5]>> : x \in Rows(e.r[r])} : r \in 1..Len(e.r)})
            IN /\ Cardinality(Keys(all)) = Cardinality(all)
               \* whoever knows an object with basis functions has its number
               /\ \A r \in 1..Len(e.r) : LET kn == TLCEval(Objs(mesh.r[r], Cases[c].dim))  mine == TLCEval(Keys(Rows(e.r[r]))) IN
                     \A x \in Keys(all) : <<x[1], x[2]>> \in kn => x \in mine
               \* exactly one owner
               /\ LET own == TLCEval(OwnTable(e)) IN
                    /\ Cardinality(own) = Cardinality(all)
                    /\ {<<x[2][1], x[2][2], x[3]>> : x \in own} = Keys(all)
Included(e) == \A r \in 1..Len(e.r) : e.r[r].inc = e.us
(* translation of every number (and of numbers outside the range) *)
TranslateOK(e) ==
    LET own == TLCEval(OwnTable(e))
        N == G!SumSet(own)
    IN \A r \in 1..Len(e.r) :
         LET mine == TLCEval(G!Numbers(G!OfRank(own, r)))
         IN /\ e.r[r].nl = Cardinality(mine)
            /\ e.r[r].neg = -1
            /\ Len(e.r[r].g2l) >= N + 1
            /\ \A g \in 0..(Len(e.r[r].g2l) - 1) :
                 e.r[r].g2l[g + 1] = IF g \in mine THEN G!LocalOf(mine, g) ELSE -1
(* numbers of the basis functions of an element, in the order of the element's local numbering *)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Indices(tab, us, x, dim) ==
    LET seg(kind, id, u) == IF <<kind, id, u>> \in DOMAIN tab THEN [i \in 1..tab[<<kind, id, u>>][1] |-> tab[<<kind, id, u>>][2] + i - 1] ELSE <<>>
        all(kind, ids, u) == Cat([i \in 1..Len(ids) |-> seg(kind, ids[i], u)])
    IN Cat([i \in 1..Len(us) |-> seg(0, x.id, us[i]) \o all(1, x.fa, us[i]) \o all(2, x.ed, us[i])
                                  \o (IF dim > 1 THEN all(3, x.nd, us[i]) ELSE <<>>)])
IndicesOK(e) ==
    \A r \in 1..Len(e.r) :
       LET R == e.r[r]  D == mesh.r[r]
           tab == TLCEval([k \in Keys(Rows(R)) |-> LET x == CHOOSE y \in Rows(R) : <<y[1], y[2], y[3]>> = k IN <<x[4], x[5]>>])
           gi == TLCEval([id \in {x[1] : x \in S(R.gi)} |-> (CHOOSE x \in S(R.gi) : x[1] = id)[2]])
           gf == TLCEval([id \in {x[1] : x \in S(R.gf)} |-> (CHOOSE x \in S(R.gf) : x[1] = id)[2]])
       IN /\ DOMAIN gi = {x.id : x \in S(D.el)} /\ DOMAIN gf = {x.id : x \in S(D.fa)}
          /\ \A x \in S(D.el) : gi[x.id] = Indices(tab, e.us, x, Cases[c].dim)
          /\ \A f \in S(D.fa) : gf[f.id] = gi[f.in[1][1]] \o (IF Len(f.in) > 1 THEN gi[f.in[2][1]] ELSE <<>>)
IndexOK(e) ==
    LET own == TLCEval(OwnTable(e)) IN
    /\ Included(e) /\ Agree(e)
    /\ G!Bijection(own) /\ G!LayoutOK(own, Len(e.r), S(e.us), e.layout) /\ G!LocalOK(own, Len(e.r))
    /\ TranslateOK(e) /\ IndicesOK(e)

TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ mesh = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ mesh' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ IF e.c = "dump" THEN mesh' = e /\ ok' = TRUE
                    ELSE mesh' = mesh /\ ok' = IndexOK(e)
TSpec == TInit /\ [][TNext]_<<c, p, ok, mesh>>
TraceOK == ok
=============================================================================
