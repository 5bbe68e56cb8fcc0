---------------------------- MODULE VectorTrace ----------------------------
(* C12: recorded global vectors.  Events: index, counts (functions per unknown *)
(* of every element), setev/setfv, settiv (coefficients of all elements), vec. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES c, p, ok, idx, cnt, evs, fvs, tiv, vs
A == INSTANCE Assembly WITH NE <- 1, NP <- 1, Values <- {}, Rounds <- 1, OwnerOnly <- TRUE,
     ow <- 0, val <- 0, todo <- 0, A <- 0, stash <- 0, pc <- 0, round <- 0, done <- 0
T == INSTANCE IndexTables
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
Prep(e) == [n |-> T!N(e), gi |-> T!GI(e), gf |-> T!GF(e), us |-> e.r[1].inc]
AllLocal(e) == FoldLeft(LAMBDA s, x : s \o x.v, <<>>, e.r)
(* the recorded vector as one function; every position once *)
Shape(e, n) == /\ \A r \in 1..Len(e.r) : e.r[r].n = n
               /\ \A r \in 1..Len(e.r) : e.r[r].lo = FoldLeft(LAMBDA s, x : s + Len(x.v), 0, SubSeq(e.r, 1, r - 1))
               /\ n = FoldLeft(LAMBDA s, x : s + Len(x.v), 0, e.r)
Flat(e) == FoldLeft(LAMBDA s, x : s \o x.v, <<>>, e.r)
Vector(e) == LET q == TLCEval(Flat(e)) IN [i \in 0..(Len(q) - 1) |-> q[i + 1]]
AssembledV(v) ==
   LET ix == idx[v.ix]
       els == IF v.eid \in DOMAIN evs THEN evs[v.eid] ELSE <<>>
       fas == IF v.fid \in DOMAIN fvs THEN fvs[v.fid] ELSE <<>>
   IN A!TotalV(ix.n, [i \in 1..Len(els) |-> [row |-> ix.gi[els[i][1]], v |-> els[i][2]]]
                     \o [i \in 1..Len(fas) |-> [row |-> ix.gf[fas[i][1]], v |-> fas[i][2]]])
(* positions of the functions of an element: in its coefficient vector and in the global vector *)
RECURSIVE Before(_, _)
Before(q, u) == IF u = 0 THEN 0 ELSE q[u] + Before(q, u - 1)        \* functions of the unknowns before u (0-based)
RECURSIVE BeforeIn(_, _, _)
BeforeIn(q, us, k) == IF k = 1 THEN 0 ELSE q[us[k - 1] + 1] + BeforeIn(q, us, k - 1)
(* set of <<position in the element's coefficients, global number>> of the included unknowns that are also in Sel *)
Map(ix, id, Sel) == UNION {LET u == ix.us[k]  q == cnt[id] IN
       IF u \in Sel THEN {<<Before(q, u) + i, ix.gi[id][BeforeIn(q, ix.us, k) + i]>> : i \in 1..q[u + 1]} ELSE {} : k \in 1..Len(ix.us)}
AllU == 0..7
SelOf(u) == IF u = "-1" THEN AllU ELSE {CHOOSE k \in 0..7 : ToString(k) = u}
(* coefficients as one value per element (all holders agree, checked on recording) *)
TivAgree(e) == LET all == UNION {{<<x[1], x[3]>> : x \in S(e.r[r].t)} : r \in 1..Len(e.r)}
               IN Cardinality({x[1] : x \in all}) = Cardinality(all)
TivOf(e) == T!Pairs2Fun(UNION {{<<x[1], x[3]>> : x \in S(e.r[r].t)} : r \in 1..Len(e.r)})
Id(s) == 1 + (CHOOSE k \in 0..7 : ToString(k) = s)
Constructed(ix, id, Sel) ==
   LET pairs == TLCEval(UNION {{<<x[2], tiv[k][id][x[1]]>> : x \in Map(ix, k, Sel)} : k \in DOMAIN tiv})
   IN [g \in 0..(ix.n - 1) |-> IF \E x \in pairs : x[1] = g THEN (CHOOSE x \in pairs : x[1] = g)[2] ELSE 0]
Written(ix, id, Sel, V) ==
   [k \in DOMAIN tiv |-> [j \in DOMAIN tiv[k] |-> IF j # id THEN tiv[k][j] ELSE
        LET m == TLCEval(Map(ix, k, Sel)) IN
        [i \in DOMAIN tiv[k][j] |-> IF \E x \in m : x[1] = i THEN V[(CHOOSE x \in m : x[1] = i)[2]] ELSE tiv[k][j][i]]]]
VecStep(e) ==
   LET name == e.a[1]  mode == e.a[2]
       v == IF mode = "new" THEN [ix |-> e.a[3], eid |-> e.a[4], fid |-> e.a[5]] ELSE vs[name]
       ix == idx[v.ix]
       V == TLCEval(Vector(e))
   IN /\ vs' = (name :> [ix |-> v.ix, eid |-> v.eid, fid |-> v.fid, val |-> V]) @@ vs
      /\ IF mode = "write" THEN tiv' = TivOf(e) ELSE tiv' = tiv
      /\ ok' = /\ Shape(e, ix.n)
               /\ CASE mode \in {"new", "reinit", "assemble"} -> V = AssembledV(v)
                    [] mode = "construct" -> V = Constructed(ix, Id(e.a[3]), SelOf(e.a[4]))
                    [] mode = "write" -> /\ V = vs[name].val /\ TivAgree(e)
                                         /\ TivOf(e) = Written(ix, Id(e.a[3]), SelOf(e.a[4]), V)
                    [] mode = "set" -> TRUE
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ idx = <<>> /\ cnt = <<>> /\ evs = <<>> /\ fvs = <<>> /\ tiv = <<>> /\ vs = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ idx' = <<>> /\ cnt' = <<>> /\ evs' = <<>> /\ fvs' = <<>> /\ tiv' = <<>> /\ vs' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ CASE e.c = "index" -> idx' = (e.a[1] :> Prep(e)) @@ idx /\ ok' = TRUE /\ UNCHANGED <<cnt, evs, fvs, tiv, vs>>
                      [] e.c = "counts" -> cnt' = T!Pairs2Fun(UNION {S(e.r[r].n) : r \in 1..Len(e.r)}) /\ ok' = TRUE /\ UNCHANGED <<idx, evs, fvs, tiv, vs>>
                      [] e.c = "setev" -> evs' = (e.a[1] :> AllLocal(e)) @@ evs /\ ok' = TRUE /\ UNCHANGED <<idx, cnt, fvs, tiv, vs>>
                      [] e.c = "setfv" -> fvs' = (e.a[1] :> AllLocal(e)) @@ fvs /\ ok' = TRUE /\ UNCHANGED <<idx, cnt, evs, tiv, vs>>
                      [] e.c = "settiv" -> tiv' = TivOf(e) /\ ok' = TivAgree(e) /\ UNCHANGED <<idx, cnt, evs, fvs, vs>>
                      [] e.c = "vec" -> VecStep(e) /\ UNCHANGED <<idx, cnt, evs, fvs>>
TSpec == TInit /\ [][TNext]_<<c, p, ok, idx, cnt, evs, fvs, tiv, vs>>
TraceOK == ok
=============================================================================
