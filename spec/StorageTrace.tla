---------------------------- MODULE StorageTrace ----------------------------
(* C16: recorded writes (events st) with everything that can be read afterwards. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, s, fe
A == INSTANCE Storage WITH MaxOps <- 0, Which <- "", hist <- <<>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
Match(x, o) == Len(x) = Len(o) /\ \A i \in DOMAIN x : x[i] = A!U \/ x[i] = o[i]
MatchM(x, o) == Len(x) = Len(o) /\ \A i \in DOMAIN x : Match(x[i], o[i])
VecOK(x, n, o) == Match(x, o.w) /\ \A u \in DOMAIN n : Match(A!Part(x, n, u - 1), o.p[u]) /\ Match(A!Part(x, n, u - 1), o.e[u])
ElOK(x, o) == /\ o.n = x.n
              /\ \A t \in DOMAIN x.tl : x.tl[t] = <<>> \/ VecOK(x.tl[t], x.n, o.tl[t])
              /\ Len(o.iv) = Len(x.iv) /\ \A t \in DOMAIN x.iv : VecOK(x.iv[t], x.n, o.iv[t])
              /\ \A i \in 1..4 : x.em[i] = <<>> \/ MatchM(x.em[i], o.em[i])
              /\ \A i \in 1..4 : x.ev[i] = <<>> \/ Match(x.ev[i], o.ev[i])
FaOK(st, x, k, o) ==
   /\ \A i \in 1..4 : x.fm[i].d = <<>> \/ (/\ o.fm[i].d = x.fm[i].d /\ MatchM(x.fm[i].w, o.fm[i].w)
                                          /\ \A a, b \in 0..1 : MatchM(A!Block(x.fm[i], a, b), o.fm[i].s[2 * a + b + 1]))
   /\ \A i \in 1..4 : x.fv[i] = <<>> \/ Match(x.fv[i], o.fv[i])
   /\ x.fr = <<>> \/ Match(x.fr, o.fr)
   (* the vector of a face: left functions of the unknown, then the right ones *)
   /\ \A t \in DOMAIN o.iv : \A u \in DOMAIN o.iv[t] :
        Match(IF Len(fe[k]) = 1 THEN A!Part(st.el[fe[k][1]].iv[t], st.el[fe[k][1]].n, u - 1)
              ELSE A!Part(st.el[fe[k][1]].iv[t], st.el[fe[k][1]].n, u - 1) \o A!Part(st.el[fe[k][2]].iv[t], st.el[fe[k][2]].n, u - 1), o.iv[t][u])
Obs(st, e) == /\ Len(e.el) = Len(st.el) /\ \A i \in DOMAIN st.el : ElOK(st.el[i], e.el[i])
              /\ Len(e.fa) = Len(st.fa) /\ \A i \in DOMAIN st.fa : FaOK(st, st.fa[i], i, e.fa[i])
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ s = <<>> /\ fe = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ s' = <<>> /\ fe' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ CASE e.c = "faces2" -> fe' = e.f /\ s' = s /\ ok' = TRUE
                      [] e.c = "first" -> fe' = fe /\ ok' = TRUE /\
                           s' = [el |-> [i \in DOMAIN e.n |-> A!NewElement(e.n[i], e.tl)], fa |-> [i \in DOMAIN fe |-> A!NewFace]]
                      [] e.c = "rebase" -> fe' = fe /\ ok' = TRUE /\ s' = [s EXCEPT !.el = [i \in DOMAIN @ |-> A!Rebase(@[i], e.n[i])]]
                      [] e.c = "st" -> LET q == TLCEval(A!Apply(s, e)) IN s' = q /\ fe' = fe /\ ok' = Obs(q, e)
TSpec == TInit /\ [][TNext]_<<c, p, ok, s, fe>>
TraceOK == ok
=============================================================================
