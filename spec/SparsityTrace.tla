--------------------------- MODULE SparsityTrace ---------------------------
(* C10: recorded sparsity estimates.  Events: dump, index, spars.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, mesh, idx
A == INSTANCE Assembly WITH NE <- 1, NP <- 1, Values <- {}, Rounds <- 1, OwnerOnly <- TRUE,
     ow <- 0, val <- 0, todo <- 0, A <- 0, stash <- 0, pc <- 0, round <- 0, done <- 0
T == INSTANCE IndexTables
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
(* a numbering, prepared: only what the counting needs *)
Prep(e) == [n |-> T!N(e), gi |-> T!GI(e), unk |-> T!Unk(e), own |-> T!Own(e), us |-> e.r[1].inc, nl |-> [r \in 1..Len(e.r) |-> e.r[r].nl]]
(* all elements and faces (by the elements they join) of the mesh *)
Elements == UNION {{x.id : x \in S(mesh.r[r].el)} : r \in 1..Len(mesh.r)}
Faces == UNION {{{f.in[i][1] : i \in 1..Len(f.in)} : f \in {g \in S(mesh.r[r].fa) : g.own}} : r \in 1..Len(mesh.r)}
Coup(e, rx, cx) == {<<rx.us[i], cx.us[j]>> : <<i, j>> \in {<<a, b>> \in (1..Len(rx.us)) \X (1..Len(cx.us)) : e.t[a][b] = 1}}
SparsOK(e) ==
   LET rx == idx[e.r[1].row]  cx == idx[e.r[1].col]
       cols == TLCEval([k \in Elements |-> S(cx.gi[k])])
       rows == TLCEval([k \in Elements |-> S(rx.gi[k])])
       els == TLCEval({<<rows[k], cols[k]>> : k \in Elements})
       fas == TLCEval({<<UNION {rows[k] : k \in f}, UNION {cols[k] : k \in f}>> : f \in Faces})
       coup == TLCEval(Coup(e, rx, cx))
   IN /\ \A r \in 1..Len(e.r) : Len(e.r[r].on) = rx.nl[r] /\ Len(e.r[r].off) = rx.nl[r]
      /\ \A g \in 0..(rx.n - 1) :
           LET r == rx.own[g][1]  l == rx.own[g][2]
               cs == TLCEval(A!Columns(g, els, fas, rx.unk, cx.unk, coup))
               on == Cardinality({h \in cs : cx.own[h][1] = r})
           IN /\ e.r[r].on[l + 1] = on
              /\ e.r[r].off[l + 1] = Cardinality(cs) - on
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ mesh = <<>> /\ idx = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ mesh' = <<>> /\ idx' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ CASE e.c = "dump" -> mesh' = e /\ ok' = TRUE /\ idx' = idx
                      [] e.c = "index" -> idx' = (e.name :> Prep(e)) @@ idx /\ ok' = TRUE /\ mesh' = mesh
                      [] e.c = "spars" -> ok' = SparsOK(e) /\ UNCHANGED <<mesh, idx>>
TSpec == TInit /\ [][TNext]_<<c, p, ok, mesh, idx>>
TraceOK == ok
=============================================================================
