---------------------------- MODULE MaxwellTrace ----------------------------
(* C32: recorded forms of DG-Max's discretisation.  Events: el (the elements and their forms), fa (faces), err      *)
(* (norms of the difference to given fields).                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, el
F == INSTANCE MaxwellForms
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in DOMAIN q}
ElementOK(C, x) ==
   /\ x.m = (IF C.mode = 1 THEN F!InnerProduct(x.co, x.u, x.v) ELSE F!Mass(x))
   /\ x.s = F!Stiffness(x)
   /\ x.jv = (IF C.vec THEN F!InnerProduct(x.co, x.j, x.v) ELSE 0)
   /\ x.pr = (IF C.proj THEN <<F!Projector(x, x.gr)>> ELSE <<>>)
   /\ x.at = [d \in DOMAIN x.at |-> LET w == F!Values(x.u, x.co) IN
                 F!Total([i \in DOMAIN w |-> (IF i = 1 THEN 4 - (Len(w) - 1) ELSE 1) * w[i][d]])]
   /\ x.cu = F!Curl(x.u) /\ x.same
FaceOK(C, x) ==
   LET a == el[x.l[1]]
       fl == TLCEval(F!LeftVertices(a, x.l[2]))
       n == TLCEval(F!N(a.co, fl))
       ul == TLCEval(F!On(a.u, a.co, fl))
       vl == TLCEval(F!On(a.v, a.co, fl))
       in == Len(x.r) > 0
       b == IF in THEN el[x.r[1]] ELSE a
       fr == TLCEval(IF in THEN F!RightVertices(a, x.l[2], b, x.r[2]) ELSE fl)
       ur == TLCEval(F!On(b.u, b.co, fr))
       ju == TLCEval(IF in THEN F!Jump(ul, ur) ELSE ul)
       jv == TLCEval(IF in THEN F!Jump(vl, F!On(b.v, b.co, fr)) ELSE vl)
       tan == TLCEval(F!Tangential(n, ju, jv))
       Z == CHOOSE z \in 1..3 : a.eps = z * z * a.mu
   IN /\ (x.bc = 0) = in
      /\ x.n2 = F!DotP(n, n) /\ x.h2 = F!Longest(fl)
      /\ x.k = (CASE x.bc = 0 -> F!Coupling(n, a.u, b.u, a.v, b.v, a.mu, b.mu, ju, jv)
                  [] x.bc = 1 -> F!CouplingD(n, a.u, a.v, ul, vl) [] OTHER -> 0)
      /\ x.pen = (IF x.bc <= 1 THEN tan ELSE 0)
      /\ x.imp = (IF x.bc = 3 THEN 0 - Z * tan ELSE 0)
      /\ x.v0 = (IF ~C.vec THEN 0 ELSE CASE x.bc = 0 -> 0 [] x.bc = 1 -> 0 - F!DotP(x.g, F!Curl(a.v))
                                         [] OTHER -> F!DotP(x.g, F!CrossD(n, F!VecSum(vl))))
      /\ x.v1 = (IF C.vec /\ x.bc = 1 THEN F!DotP(x.g, F!CrossD(n, F!VecSum(vl))) ELSE 0)
      /\ C.proj \/ F!FluxesOK(n, x, ul, ur, vl, F!On(b.v, b.co, fr), a, b)
      /\ x.i2 = (IF C.mode = 2 THEN <<>> ELSE IF in THEN <<F!Pairing(ul, ul), F!Pairing(ur, ur)>> ELSE <<F!Pairing(ul, ul)>>)
Diff(w, u) == [A |-> [i \in DOMAIN w.A |-> [j \in DOMAIN w.A |-> w.A[i][j] - u.A[i][j]]], b |-> [i \in DOMAIN w.b |-> w.b[i] - u.b[i]]]
ErrOK(C, e) ==
   LET ids == TLCEval(LET RECURSIVE Q(_)
                          Q(s) == IF s = {} THEN <<>> ELSE LET i == CHOOSE y \in s : TRUE IN <<i>> \o Q(s \ {i}) IN Q(DOMAIN el))
       d == TLCEval([i \in DOMAIN ids |-> Diff(el[ids[i]].w, el[ids[i]].u)])
   IN e.v = <<F!Total([i \in DOMAIN ids |-> F!InnerProduct(el[ids[i]].co, d[i], d[i])]),
              F!Total([i \in DOMAIN ids |-> F!Det(el[ids[i]].co) * F!DotP(F!Curl(d[i]), F!Curl(d[i]))])>>
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ el = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ el' = <<>>
            ELSE LET C == Cases[c]  e == C.ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ CASE e.c = "el" -> el' = [id \in {e.s[i].id : i \in DOMAIN e.s} |-> CHOOSE x \in S(e.s) : x.id = id]
                                       /\ ok' = (e.fits /\ \A i \in DOMAIN e.s : ElementOK(C, e.s[i]))
                      [] e.c = "fa" -> el' = el /\ ok' = \A i \in DOMAIN e.s : FaceOK(C, e.s[i])
                      [] e.c = "err" -> el' = el /\ ok' = ErrOK(C, e)
TSpec == TInit /\ [][TNext]_<<c, p, ok, el>>
TraceOK == ok
=============================================================================
