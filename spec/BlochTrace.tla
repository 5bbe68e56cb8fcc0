----------------------------- MODULE BlochTrace -----------------------------
(* C26: recorded phase-shifted matrices.  Events: dump (mesh), index, setem,   *)
(* setfm, mat (as in AssemblyTrace), kface / kcgdg (construction of shifts,    *)
(* with the extra shift vectors x in periods) and kapply (matrix afterwards).  *)
(* Case: per = lengths of the periods.  Incidences of entities carry the local *)
(* node numbers of the entity in the element: <<element, local number, nodes>>.*)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES c, p, ok, mesh, idx, em, fm, ms, sh, refs
A == INSTANCE Assembly WITH NE <- 1, NP <- 1, Values <- {}, Rounds <- 1, OwnerOnly <- TRUE,
     ow <- 0, val <- 0, todo <- 0, A <- 0, stash <- 0, pc <- 0, round <- 0, done <- 0
B == INSTANCE Bloch WITH N <- 3, NP <- 1, Wave <- {}, Applications <- 1, Accumulate <- FALSE, OwnRowsOnly <- TRUE,
     ow <- 0, flip <- 0, M <- 0, q <- 0, todo <- 0, busy <- 0, n <- 0
T == INSTANCE IndexTables
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
Prep(e) == [n |-> T!N(e), gi |-> T!GI(e), gf |-> T!GF(e), tab |-> T!Tab(e), us |-> e.r[1].inc]
AllLocal(e) == FoldLeft(LAMBDA s, x : s \o x.v, <<>>, e.r)
(* mesh: element id -> coordinates of its nodes; entity -> incidences, the longest list anyone has *)
Longest(xs) == CHOOSE x \in xs : \A y \in xs : Len(y.in) <= Len(x.in)
Ents(e, f) == LET all == TLCEval(UNION {S(e.r[r][f]) : r \in 1..Len(e.r)})
              IN [id \in {x.id : x \in all} |-> Longest({x \in all : x.id = id}).in]
Mesh(e) == [co |-> LET all == TLCEval(UNION {{<<x.id, x.co>> : x \in S(e.r[r].el)} : r \in 1..Len(e.r)})
                   IN [id \in {x[1] : x \in all} |-> (CHOOSE x \in all : x[1] = id)[2]],
            fa |-> Ents(e, "fa"), ed |-> Ents(e, "ed"), no |-> Ents(e, "no")]
Dims == 1..Cases[c].dim
(* the place of an entity as one of its elements sees it: the sum of its vertices *)
Place(inc) == [d \in Dims |-> FoldLeft(LAMBDA s, l : s + mesh.co[inc[1]][l + 1][d], 0, inc[3])]
(* the view of a minus the view of b, in periods *)
Apart(a, b) == LET x == Place(a)  y == Place(b) IN [d \in Dims |-> (x[d] - y[d]) \div (Len(a[3]) * Cases[c].per[d])]
Sound(a, b) == LET x == Place(a)  y == Place(b) IN \A d \in Dims : (x[d] - y[d]) % (Len(a[3]) * Cases[c].per[d]) = 0
Zero == [d \in Dims |-> 0]
Plus(a, b) == [d \in Dims |-> a[d] + b[d]]
Minus(a, b) == [d \in Dims |-> a[d] - b[d]]
Locals(m) ==
   LET rx == idx[m.row]  cx == idx[m.col]
       els == IF m.eid \in DOMAIN em THEN em[m.eid] ELSE <<>>
       fas == IF m.fid \in DOMAIN fm THEN fm[m.fid] ELSE <<>>
   IN [i \in 1..Len(els) |-> [row |-> rx.gi[els[i][1]], col |-> cx.gi[els[i][1]], v |-> els[i][2]]]
      \o [i \in 1..Len(fas) |-> [row |-> rx.gf[fas[i][1]], col |-> cx.gf[fas[i][1]], v |-> fas[i][2]]]
Base(m) == A!Total(idx[m.row].n, idx[m.col].n, Locals(m))
(* recorded rows as a set of <<row, col, re, im>> *)
Rows(e) == TLCEval(UNION {{<<x[1], x[2]>> : x \in S(e.r[r].rows)} : r \in 1..Len(e.r)})
RowSum(e) == FoldLeft(LAMBDA s, x : s + Len(x.rows), 0, e.r)
Extra(e) == LET all == TLCEval(UNION {S(e.r[r].x) : r \in 1..Len(e.r)}) IN [id \in {x[1] : x \in all} |-> (CHOOSE x \in all : x[1] = id)[2]]
(* does the recorded row (set of <<col, re, im>>) equal base values X[r] turned by turns(col)? *)
RowOK(row, X, turns(_)) == S(row) = {<<j, B!Turned(X[j], turns(j))[1], B!Turned(X[j], turns(j))[2]>> : j \in {k \in DOMAIN X : X[k] # 0}}
(* element of a function of a discontinuous numbering *)
ElOf(ix) == LET pr == TLCEval(UNION {{<<g, e>> : g \in S(ix.gi[e])} : e \in DOMAIN ix.gi}) IN [g \in {x[1] : x \in pr} |-> (CHOOSE x \in pr : x[1] = g)[2]]
(* A face shift: entries of the two elements of a boundary face *)
FaceOK(e, s, m, X, q) ==
   LET el == TLCEval(ElOf(idx[m.row]))
       bf == TLCEval({f \in DOMAIN mesh.fa : Len(mesh.fa[f]) = 2 /\ Apart(mesh.fa[f][1], mesh.fa[f][2]) # Zero})
       tr == TLCEval([f \in bf |-> B!TurnsOf(q, Plus(Apart(mesh.fa[f][1], mesh.fa[f][2]), s.x[f]))])
       pairs == TLCEval({<<mesh.fa[f][1][1], mesh.fa[f][2][1], tr[f]>> : f \in bf} \cup {<<mesh.fa[f][2][1], mesh.fa[f][1][1], -tr[f]>> : f \in bf})
       ph == TLCEval([x \in {<<y[1], y[2]>> : y \in pairs} |-> (CHOOSE y \in pairs : y[1] = x[1] /\ y[2] = x[2])[3]])
       t(i, j) == IF <<el[i], el[j]>> \in DOMAIN ph THEN ph[<<el[i], el[j]>>] ELSE 0
   IN /\ \A f \in bf : Sound(mesh.fa[f][1], mesh.fa[f][2])
      /\ RowSum(e) = idx[m.row].n
      /\ \A x \in Rows(e) : RowOK(x[2], X[x[1]], LAMBDA j : t(x[1], j))
(* a conforming numbering against a discontinuous one.  Each entity has one element from which its functions are    *)
(* seen without phase; Refs: the elements that explain all rows recorded so far                                      *)
Inc(k) == IF k[1] = 1 THEN mesh.fa[k[2]] ELSE IF k[1] = 2 THEN mesh.ed[k[2]] ELSE mesh.no[k[2]]
Entities(m) == {k \in DOMAIN idx[m.row].tab : k[1] # 0}
Refs0(m) == [k \in Entities(m) |-> 1..Len(Inc(k))]
Narrow(e, s, m, X, q, old) ==
   LET el == TLCEval(ElOf(idx[m.col]))  rec == TLCEval([r \in {x[1] : x \in Rows(e)} |-> (CHOOSE x \in Rows(e) : x[1] = r)[2]])
       tab == idx[m.row].tab
       turn(k, a, j) == LET mine == {i \in 1..Len(Inc(k)) : Inc(k)[i][1] = el[j]} IN
                        IF mine = {} THEN 0
                        ELSE LET i == CHOOSE i \in mine : TRUE
                                 n == Apart(Inc(k)[a], Inc(k)[i])
                             IN IF n = Zero THEN 0 ELSE B!TurnsOf(q, Minus(n, s.x[el[j]]))
   IN [k \in Entities(m) |-> {a \in old[k] :
         /\ \A i \in 1..Len(Inc(k)) : Sound(Inc(k)[a], Inc(k)[i])
         /\ \A g \in tab[k][2]..(tab[k][2] + tab[k][1] - 1) : LET tt == TLCEval([j \in {y \in DOMAIN X[g] : X[g][y] # 0} |-> turn(k, a, j)]) IN RowOK(rec[g], X[g], LAMBDA j : tt[j])}]
InteriorOK(e, m, X) ==
   LET tab == idx[m.row].tab  inner == {k \in DOMAIN tab : k[1] = 0}
       gs == UNION {tab[k][2]..(tab[k][2] + tab[k][1] - 1) : k \in inner}
   IN RowSum(e) = idx[m.row].n /\ \A x \in Rows(e) : x[1] \in gs => RowOK(x[2], X[x[1]], LAMBDA j : 0)
Keep == UNCHANGED <<mesh, idx, em, fm, ms, sh, refs>>
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ mesh = <<>> /\ idx = <<>> /\ em = <<>> /\ fm = <<>> /\ ms = <<>> /\ sh = <<>> /\ refs = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ mesh' = <<>> /\ idx' = <<>> /\ em' = <<>> /\ fm' = <<>> /\ ms' = <<>> /\ sh' = <<>> /\ refs' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ CASE e.c = "dump" -> mesh' = Mesh(e) /\ ok' = TRUE /\ UNCHANGED <<idx, em, fm, ms, sh, refs>>
                      [] e.c = "index" -> idx' = (e.a[1] :> Prep(e)) @@ idx /\ ok' = TRUE /\ UNCHANGED <<mesh, em, fm, ms, sh, refs>>
                      [] e.c = "setem" -> em' = (e.a[1] :> AllLocal(e)) @@ em /\ ok' = TRUE /\ UNCHANGED <<mesh, idx, fm, ms, sh, refs>>
                      [] e.c = "setfm" -> fm' = (e.a[1] :> AllLocal(e)) @@ fm /\ ok' = TRUE /\ UNCHANGED <<mesh, idx, em, ms, sh, refs>>
                      [] e.c = "mat" /\ e.a[2] = "new" ->
                           LET m == [row |-> e.a[3], col |-> e.a[4], eid |-> e.a[5], fid |-> e.a[6]]
                           IN ms' = (e.a[1] :> [m |-> m, X |-> TLCEval(Base(m))]) @@ ms /\ ok' = TRUE /\ UNCHANGED <<mesh, idx, em, fm, sh, refs>>
                      [] e.c = "mat" -> ok' = TRUE /\ Keep
                      [] e.c = "kface" -> sh' = (e.a[1] :> [x |-> Extra(e), kind |-> 1]) @@ sh /\ ok' = TRUE /\ UNCHANGED <<mesh, idx, em, fm, ms, refs>>
                      [] e.c = "kcgdg" -> /\ sh' = (e.a[1] :> [x |-> Extra(e), kind |-> 2]) @@ sh /\ ok' = TRUE
                                          /\ refs' = (e.a[1] :> <<>>) @@ refs /\ UNCHANGED <<mesh, idx, em, fm, ms>>
                      [] e.c = "kapply" /\ sh[e.a[2]].kind = 1 -> ok' = FaceOK(e, sh[e.a[2]], ms[e.a[1]].m, ms[e.a[1]].X, e.q) /\ Keep
                      [] e.c = "kapply" /\ sh[e.a[2]].kind = 2 ->
                           LET m == ms[e.a[1]].m
                               old == IF refs[e.a[2]] = <<>> THEN Refs0(m) ELSE refs[e.a[2]]
                               new == TLCEval(Narrow(e, sh[e.a[2]], m, ms[e.a[1]].X, e.q, old))
                           IN /\ refs' = [refs EXCEPT ![e.a[2]] = new]
                              /\ ok' = (InteriorOK(e, m, ms[e.a[1]].X) /\ \A k \in DOMAIN new : new[k] # {})
                              /\ UNCHANGED <<mesh, idx, em, fm, ms, sh>>
TSpec == TInit /\ [][TNext]_<<c, p, ok, mesh, idx, em, fm, ms, sh, refs>>
TraceOK == ok
=============================================================================
