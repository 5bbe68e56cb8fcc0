--------------------------- MODULE AssemblyTrace ---------------------------
(* C11: recorded global matrices.  Events: dump, index, setem/setfm (local     *)
(* matrices of the owned elements and faces), mat (creation, re-assembly, ..)  *)
(* and bc (rows on which a boundary condition acts).  e.a: command arguments.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES c, p, ok, mesh, idx, em, fm, ms
A == INSTANCE Assembly WITH NE <- 1, NP <- 1, Values <- {}, Rounds <- 1, OwnerOnly <- TRUE,
     ow <- 0, val <- 0, todo <- 0, A <- 0, stash <- 0, pc <- 0, round <- 0, done <- 0
T == INSTANCE IndexTables
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
Prep(e) == [n |-> T!N(e), gi |-> T!GI(e), gf |-> T!GF(e), tab |-> T!Tab(e), us |-> e.r[1].inc]
AllLocal(e) == FoldLeft(LAMBDA s, x : s \o x.v, <<>>, e.r)
Locals(m) ==
   LET rx == idx[m.row]  cx == idx[m.col]
       els == IF m.eid \in DOMAIN em THEN em[m.eid] ELSE <<>>
       fas == IF m.fid \in DOMAIN fm THEN fm[m.fid] ELSE <<>>
   IN [i \in 1..Len(els) |-> [row |-> rx.gi[els[i][1]], col |-> cx.gi[els[i][1]], v |-> els[i][2]]]
      \o [i \in 1..Len(fas) |-> [row |-> rx.gf[fas[i][1]], col |-> cx.gf[fas[i][1]], v |-> fas[i][2]]]
MatOK(e, m) ==
   LET rx == idx[m.row]  cx == idx[m.col]
       X == TLCEval(A!Total(rx.n, cx.n, Locals(m)))
       rec == TLCEval(FoldLeft(LAMBDA s, x : s \o x.rows, <<>>, e.r))
   IN /\ \A r \in 1..Len(e.r) : e.r[r].m = rx.n /\ e.r[r].n = cx.n
      /\ Len(rec) = rx.n /\ {x[1] : x \in S(rec)} = 0..(rx.n - 1)
      /\ \A x \in S(rec) : S(x[2]) = {<<j, X[x[1]][j]>> : j \in {k \in 0..(cx.n - 1) : X[x[1]][k] # 0}}
(* functions of a face, its edges and its nodes (fe/fn: local edge and node numbers in the left element) *)
BcOK(e, m) ==
   \A r \in 1..Len(e.r) : \A b \in S(e.r[r].b) :
      LET ix == idx[m.row]
          f == CHOOSE x \in S(mesh.r[r].fa) : x.id = b[1]
          L == CHOOSE x \in S(mesh.r[r].el) : x.id = f.in[1][1]
          ents == {<<1, f.id>>} \cup {<<2, L.ed[i + 1]>> : i \in S(f.fe)}
                  \cup (IF Cases[c].dim > 1 THEN {<<3, L.nd[i + 1]>> : i \in S(f.fn)} ELSE {})
          keys == {k \in DOMAIN ix.tab : <<k[1], k[2]>> \in ents}
      IN /\ b[2] = Len(b[3])
         /\ S(b[3]) = UNION {{ix.tab[k][2] + i : i \in 0..(ix.tab[k][1] - 1)} : k \in keys}
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ mesh = <<>> /\ idx = <<>> /\ em = <<>> /\ fm = <<>> /\ ms = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ mesh' = <<>> /\ idx' = <<>> /\ em' = <<>> /\ fm' = <<>> /\ ms' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ CASE e.c = "dump" -> mesh' = e /\ ok' = TRUE /\ UNCHANGED <<idx, em, fm, ms>>
                      [] e.c = "index" -> idx' = (e.a[1] :> Prep(e)) @@ idx /\ ok' = TRUE /\ UNCHANGED <<mesh, em, fm, ms>>
                      [] e.c = "setem" -> em' = (e.a[1] :> AllLocal(e)) @@ em /\ ok' = TRUE /\ UNCHANGED <<mesh, idx, fm, ms>>
                      [] e.c = "setfm" -> fm' = (e.a[1] :> AllLocal(e)) @@ fm /\ ok' = TRUE /\ UNCHANGED <<mesh, idx, em, ms>>
                      [] e.c = "mat" /\ e.a[2] = "new" ->
                           LET m == [row |-> e.a[3], col |-> e.a[4], eid |-> e.a[5], fid |-> e.a[6]] IN
                           ms' = (e.a[1] :> m) @@ ms /\ ok' = MatOK(e, m) /\ UNCHANGED <<mesh, idx, em, fm>>
                      [] e.c = "mat" /\ e.a[2] = "couple" -> ok' = TRUE /\ UNCHANGED <<mesh, idx, em, fm, ms>>
                      [] e.c = "mat" -> ok' = MatOK(e, ms[e.a[1]]) /\ UNCHANGED <<mesh, idx, em, fm, ms>>
                      [] e.c = "bc" -> ok' = BcOK(e, ms[e.a[1]]) /\ UNCHANGED <<mesh, idx, em, fm, ms>>
TSpec == TInit /\ [][TNext]_<<c, p, ok, mesh, idx, em, fm, ms>>
TraceOK == ok
=============================================================================
