-------------------------- MODULE DivMaxwellTrace --------------------------
(* C33: recorded mixed forms of DivDGMaxDiscretization.  Forms are recorded in blocks (u,v), (u,q), (p,v), (p,q):   *)
(* fields u, v and potentials p, q.  Faces: k without stabilisation; pen, nrm, pp: what the three interior penalty  *)
(* terms add; sum: all terms at once; imp: impedance; v, w: boundary vectors with penalties and with liftings for   *)
(* the potential; b1, b2, b3: terms with liftings, relative to their sizes in thousandths.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, el
F == INSTANCE MaxwellForms
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in DOMAIN q}
AtQuarter(w) == F!Total([i \in DOMAIN w |-> (IF i = 1 THEN 4 - (Len(w) - 1) ELSE 1) * w[i]])
ElementOK(x) ==
   LET w == TLCEval(F!Values(x.u, x.co))  z == TLCEval(F!SOn(x.p, x.co, x.co)) IN
   /\ x.m = (IF x.own THEN <<F!Mass(x), 0, 0, 0>> ELSE <<>>)
   /\ x.s = (IF x.own THEN <<F!Stiffness(x), F!Divergence(x, x.u, x.q), F!Divergence(x, x.v, x.p), 0>> ELSE <<>>)
   /\ x.jv = (IF x.own THEN <<F!InnerProduct(x.co, x.j, x.v), 0, 0>> ELSE <<>>)
   /\ x.at = [d \in DOMAIN x.at |-> AtQuarter([i \in DOMAIN w |-> w[i][d]])]
   /\ x.po = AtQuarter(z)
   /\ x.cu = F!Curl(x.u) /\ x.same
Zero(s) == \A i \in DOMAIN s : IF s[i] = 0 THEN TRUE ELSE FALSE
ZeroVec(s) == \A i \in DOMAIN s : Zero(s[i])
One(b) == IF b THEN 1 ELSE 0
(* a lifted term: symmetric, semidefinite (sign s), zero exactly where the jumps ju and jv are (zu, zv), zero for    *)
(* continuous functions, growing with the parameter as given (t), and the product of the liftings (l)               *)
LiftOK(r, s, on, zu, zv, cont, t) ==
   IF ~on THEN r.pos = <<0, 0>> /\ r.uv = 0 /\ r.vu = 0 /\ r.c = 0 /\ r.t = 0 /\ r.b = 0 /\ r.l = 0
   ELSE /\ r.pos = <<s * One(~zu), s * One(~zv)>>
        /\ F!Abs(r.uv - r.vu) <= 1 /\ F!Abs(r.uv) <= 1000
        /\ (zu \/ zv) => r.uv = 0
        /\ F!Abs(r.uv - r.l) <= 1
        /\ cont => r.c = 0
        /\ zu \/ F!Abs(r.t - s * t) <= 1
FaceOK(C, x) ==
   LET a == el[x.l[1]]
       dim == Len(a.co[1])
       fl == TLCEval(F!LeftVertices(a, x.l[2]))
       n == TLCEval(F!N(a.co, fl))
       in == Len(x.r) > 0
       b == IF in THEN el[x.r[1]] ELSE a
       fr == TLCEval(IF in THEN F!RightVertices(a, x.l[2], b, x.r[2]) ELSE fl)
       ul == TLCEval(F!On(a.u, a.co, fl))
       vl == TLCEval(F!On(a.v, a.co, fl))
       ur == TLCEval(F!On(b.u, b.co, fr))
       vr == TLCEval(F!On(b.v, b.co, fr))
       ju == TLCEval(IF in THEN F!Jump(ul, ur) ELSE ul)
       jv == TLCEval(IF in THEN F!Jump(vl, vr) ELSE vl)
       pj == TLCEval(LET z == F!SOn(a.p, a.co, fl) IN IF in THEN F!SJump(z, F!SOn(b.p, b.co, fr)) ELSE z)
       qj == TLCEval(LET z == F!SOn(a.q, a.co, fl) IN IF in THEN F!SJump(z, F!SOn(b.q, b.co, fr)) ELSE z)
       avg(wl, wr) == F!Flow(n, IF in THEN F!Plus(F!Scale(a.eps, wl), F!Scale(b.eps, wr)) ELSE F!Scale(a.eps, wl))
       dif(wl, wr) == F!Flow(n, F!Jump(F!Scale(a.eps, wl), F!Scale(b.eps, wr)))
       du == TLCEval(dif(ul, ur))
       dv == TLCEval(dif(vl, vr))
       tan == TLCEval(F!Tangential(n, ju, jv))
       tu == TLCEval([i \in DOMAIN ju |-> F!CrossD(n, ju[i])])
       tv == TLCEval([i \in DOMAIN jv |-> F!CrossD(n, jv[i])])
       Z == CHOOSE z \in 1..3 : a.eps = z * z * a.mu
       faces == dim + 1
   IN /\ (x.bc = 0) = in
      /\ x.n2 = F!DotP(n, n) /\ x.h2 = F!Longest(fl)
      /\ x.k = <<CASE x.bc = 0 -> F!Coupling(n, a.u, b.u, a.v, b.v, a.mu, b.mu, ju, jv)
                   [] x.bc = 1 -> F!CouplingD(n, a.u, a.v, ul, vl) [] OTHER -> 0,
                 F!SPairing(avg(ul, ur), qj), F!SPairing(avg(vl, vr), pj), 0>>
      /\ x.pen = (IF x.bc <= 1 THEN tan ELSE 0)
      /\ x.nrm = (IF in THEN F!SPairing(du, dv) ELSE 0)
      /\ x.pp = 0 - F!SPairing(pj, qj)
      /\ x.sum
      /\ x.imp = (IF x.bc = 3 THEN 0 - Z * tan ELSE 0) /\ x.imq
      /\ x.v = <<CASE x.bc = 0 -> 0 [] x.bc = 1 -> 0 - F!DotP(x.g, F!Curl(a.v)) [] OTHER -> F!DotP(x.g, F!CrossD(n, F!VecSum(vl))),
                 IF x.bc = 1 THEN F!DotP(x.g, F!CrossD(n, F!VecSum(vl))) ELSE 0, 0>>
      /\ x.w = x.v
      (* the lifting of the tangential jump is zero where the jump is; the parameter and the number of faces *)
      /\ LiftOK(x.b1, 1, x.bc <= 1, ZeroVec(tu), ZeroVec(tv), in, (1000 * (C.s1 + 2 + faces)) \div (C.s1 + faces))
      (* boundary data that are those of the field u give the form *)
      /\ F!Abs(x.b1.b - (IF x.bc = 1 THEN x.b1.uv ELSE 0)) <= 1
      /\ LiftOK(x.b2, 1, in, Zero(du), Zero(dv), TRUE, 2000) /\ x.b2.b = 0
      /\ LiftOK(x.b3, 0 - 1, TRUE, Zero(pj), Zero(qj), in, 2000) /\ x.b3.b = 0
      /\ F!FluxesOK(n, x, ul, ur, vl, vr, a, b)
      /\ x.i2 = (IF in THEN <<F!Pairing(ul, ul), F!Pairing(ur, ur)>> ELSE <<F!Pairing(ul, ul)>>)
Diff(w, u) == [A |-> [i \in DOMAIN w.A |-> [j \in DOMAIN w.A |-> w.A[i][j] - u.A[i][j]]], b |-> [i \in DOMAIN w.b |-> w.b[i] - u.b[i]]]
(* the potential should be zero *)
ErrOK(e) ==
   LET ids == TLCEval(LET RECURSIVE Q(_)
                          Q(s) == IF s = {} THEN <<>> ELSE LET i == CHOOSE y \in s : TRUE IN <<i>> \o Q(s \ {i}) IN Q(DOMAIN el))
       d == TLCEval([i \in DOMAIN ids |-> Diff(el[ids[i]].w, el[ids[i]].u)])
       z == TLCEval([i \in DOMAIN ids |-> F!SOn(el[ids[i]].p, el[ids[i]].co, el[ids[i]].co)])
   IN e.v = F!Total([i \in DOMAIN ids |-> F!InnerProduct(el[ids[i]].co, d[i], d[i]) + F!Det(el[ids[i]].co) * F!SPairing(z[i], z[i])])
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ el = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ el' = <<>>
            ELSE LET C == Cases[c]  e == C.ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ CASE e.c = "el" -> el' = [id \in {e.s[i].id : i \in DOMAIN e.s} |-> CHOOSE x \in S(e.s) : x.id = id]
                                       /\ ok' = (e.fits /\ \A i \in DOMAIN e.s : ElementOK(e.s[i]))
                      [] e.c = "fa" -> el' = el /\ ok' = \A i \in DOMAIN e.s : FaceOK(C, e.s[i])
                      [] e.c = "err" -> el' = el /\ ok' = ErrOK(e)
TSpec == TInit /\ [][TNext]_<<c, p, ok, el>>
TraceOK == ok
=============================================================================
