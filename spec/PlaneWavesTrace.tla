--------------------------- MODULE PlaneWavesTrace ---------------------------
(* C37: recorded values of field patterns and of the problems made from them.                                       *)
EXTENDS PlaneWaves, Json, IOUtils
VARIABLES c, p, ok
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
PointOK(f, curl, cc, mu, a) == /\ a.f = f /\ a.c = curl /\ a.cc = cc /\ a.fl = FluxOf(f, curl, mu)
WaveOK(e) == \A i \in DOMAIN e.at : LET x == e.at[i].x IN PointOK(Field(e.w, x), Curl(e.w, x), CurlCurl(e.w, x, e.mu), e.mu, e.at[i])
InterfaceOK(e) == \A j \in DOMAIN e.at : LET x == e.at[j].x IN
   PointOK(Interface(LAMBDA v : Field(v, x), e.i, x), Interface(LAMBDA v : Curl(v, x), e.i, x), Interface(LAMBDA v : CurlCurl(v, x, e.mu), e.i, x), e.mu, e.at[j])
ProblemOK(e) ==
   /\ \A j \in DOMAIN e.el : LET a == e.el[j]  f == Field(e.w, a.x)  cu == Curl(e.w, a.x)
                                 s == Source(f, CurlCurl(e.w, a.x, <<1, 1, 1>>), a.mu, a.mu * a.z * a.z, e.om)
                             IN /\ a.ex = s /\ a.sc = (IF a.pml = 1 THEN Zero ELSE VMinus(Zero, s))
                                /\ a.f = f /\ a.inf = f /\ a.c = cu /\ a.inc = cu
   /\ \A j \in DOMAIN e.fa : LET a == e.fa[j] IN a.sc /\ a.g = Data(a.k, a.n, Field(e.w, a.x), Curl(e.w, a.x), a.mu, a.z, e.om)
EventOK(e) == CASE e.k = "wave" -> WaveOK(e) [] e.k = "interface" -> InterfaceOK(e) [] e.k = "problem" -> ProblemOK(e)
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE c' = c /\ p' = p + 1 /\ ok' = EventOK(Cases[c].ev[p])
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
