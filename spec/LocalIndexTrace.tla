--------------------------- MODULE LocalIndexTrace ---------------------------
(* C15: recorded local numberings.  Events: conv (number of functions of every *)
(* element and unknown; sides of faces; single indices), eli, fli.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, cnt, sides, st
L == INSTANCE LocalIndex WITH Unknowns <- {}, Objects <- <<>>, MaxOps <- 0, sel <- {}, obj <- <<>>, hist <- <<>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
All(n) == {u - 1 : u \in DOMAIN n}
ConvOK(e) ==
   /\ \A x \in S(e.el) : /\ x.tot = L!Total(<<x.n>>, All(x.n))
                         /\ \A u \in DOMAIN x.n : x.ix[u] = [i \in 1..x.n[u] |-> L!Index(<<x.n>>, All(x.n), 1, u - 1, i - 1)]
   /\ \A x \in S(e.fa) :
        LET ns == [k \in DOMAIN x.s |-> (CHOOSE y \in S(e.el) : y.id = x.s[k]).n]
            us == All(ns[1])
        IN /\ \A u \in us : x.n[u + 1] = Len(L!Mapping(ns, us, u))
           /\ \A s \in DOMAIN ns : \A u \in us : x.ix[s][u + 1] = [i \in 1..ns[s][u + 1] |-> L!Index(ns, us, s, u, i - 1)]
           /\ Len(x.back) = L!Total(ns, us)
           /\ \A i \in 0..(Len(x.back) - 1) : x.back[i + 1] =
                (LET s == IF i < L!SideTotal(ns, us, 1) THEN 1 ELSE 2 IN <<s - 1, i - L!TotalBefore(ns, us, s)>>)
(* state of an indexing object: selection and sides (as counts) at the time of the last re-initialisation *)
ObjSides(e, k) == IF k = 0 THEN <<>> ELSE IF e.c = "eli" THEN <<cnt[k].n>> ELSE [i \in DOMAIN sides[k].s |-> (CHOOSE y \in S(cnt) : y.id = sides[k].s[i]).n]
ObjId(e, k) == IF k = 0 THEN 0 - 1 ELSE IF e.c = "eli" THEN cnt[k].id ELSE sides[k].id
Fresh == [sel |-> {}, k |-> 0, nsd |-> <<>>]
Applied(e, q) ==
   CASE e.op = "new" -> Fresh
     [] e.op = "full" -> [Fresh EXCEPT !.sel = S(e.us)]
     (* selecting unknowns re-initialises for the current object, too *)
     [] e.op = "u" -> [q EXCEPT !.sel = S(e.us), !.nsd = ObjSides(e, q.k)]
     [] e.op = "e" -> [q EXCEPT !.k = e.k, !.nsd = ObjSides(e, e.k)]
     [] e.op = "both" -> [sel |-> S(e.us), k |-> e.k, nsd |-> ObjSides(e, e.k)]
ElObs(e, q) == LET one == IF q.k = 0 THEN <<>> ELSE q.nsd IN
   /\ e.e = ObjId(e, q.k)
   /\ e.inc = L!Sorted(q.sel)
   /\ e.tot = L!Total(one, q.sel)
   /\ \A u \in 0..(Len(e.off) - 1) : e.off[u + 1] = L!Offset(one, q.sel, 1, u) /\ e.num[u + 1] = L!Num(one, q.sel, 1, u)
FaObs(e, q) == LET ns == IF q.k = 0 THEN <<>> ELSE q.nsd IN
   /\ e.e = ObjId(e, q.k)
   /\ e.inc = L!Sorted(q.sel)
   /\ e.tot = L!Total(ns, q.sel)
   /\ e.side = <<L!SideTotal(ns, q.sel, 1), L!SideTotal(ns, q.sel, 2)>>
   /\ Len(e.off) = (IF Len(ns) = 2 THEN 2 ELSE 1)
   /\ \A s \in DOMAIN e.off : \A u \in 0..(Len(e.off[s]) - 1) :
         e.off[s][u + 1] = L!Offset(ns, q.sel, s, u) /\ e.num[s][u + 1] = L!Num(ns, q.sel, s, u)
   /\ \A u \in 0..(Len(e.map) - 1) : e.map[u + 1] = L!Mapping(ns, q.sel, u)
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ cnt = <<>> /\ sides = <<>> /\ st = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ cnt' = <<>> /\ sides' = <<>> /\ st' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ IF e.c = "conv" THEN cnt' = e.el /\ sides' = e.fa /\ st' = st /\ ok' = ConvOK(e)
                    ELSE LET q == TLCEval(Applied(e, IF e.op \in {"new", "full"} THEN Fresh ELSE st[e.c])) IN
                         /\ st' = (e.c :> q) @@ st /\ UNCHANGED <<cnt, sides>>
                         /\ ok' = IF e.c = "eli" THEN ElObs(e, q) ELSE FaObs(e, q)
TSpec == TInit /\ [][TNext]_<<c, p, ok, cnt, sides, st>>
TraceOK == ok
=============================================================================
