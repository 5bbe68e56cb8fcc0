----------------------------- MODULE BandsTrace ------------------------------
(* C35: recorded paths, spectra and lines *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok
F == INSTANCE Bands
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
PathOK(e) ==
   LET t == F!PathLength(e.p, e.s) IN
   /\ e.total = t /\ e.n = Len(e.p) /\ e.co = e.p
   /\ e.k = [i \in 1..t |-> F!PathAt(e.p, e.s, i - 1)]
   /\ e.dk = [i \in 1..(t - 1) |-> F!PathStep(e.p, e.s, i)]
   /\ Len(e.ch) = t /\ e.ch[1]
   (* at corners, and there only when the step changes *)
   /\ \A i \in 1..(t - 1) : /\ e.ch[i + 1] => (i - 1) % e.s = 0
                            /\ (i = 1 \/ F!PathStep(e.p, e.s, i) # F!PathStep(e.p, e.s, i - 1)) => e.ch[i + 1]
CubeOK(e) == LET co == F!CubeCorners(e.dim, e.back) IN e.co = co /\ e.total = F!PathLength(co, e.s)
SpectrumOK(e) ==
   LET want == TLCEval(F!Spectrum(e.B, e.box, e.at, e.b)) IN
   /\ \A i \in 1..(Len(e.lin) - 1) : e.lin[i] <= e.lin[i + 1]
   /\ {e.lin[i] : i \in DOMAIN e.lin} = DOMAIN want
   /\ \A s \in DOMAIN want : Count(e.lin, s) = want[s]
   /\ {e.map[i][1] : i \in DOMAIN e.map} = DOMAIN want /\ Len(e.map) = Cardinality(DOMAIN want)
   /\ \A i \in DOMAIN e.map : want[e.map[i][1]] = e.map[i][2]
LinesOK(e) ==
   LET want == TLCEval(F!Lines(e.B, e.box, e.at, e.to, e.b))
       key(x) == <<x[2], x[3], x[4]>> IN
   /\ Len(e.lines) = Cardinality(DOMAIN want) /\ {key(e.lines[i]) : i \in DOMAIN e.lines} = DOMAIN want
   /\ \A i \in DOMAIN e.lines : want[key(e.lines[i])] = e.lines[i][1]
EventOK(e) == CASE e.c = "path" -> PathOK(e) [] e.c = "cube" -> CubeOK(e) [] e.c = "spectrum" -> SpectrumOK(e) [] e.c = "lines" -> LinesOK(e) [] OTHER -> FALSE
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE c' = c /\ p' = p + 1 /\ ok' = EventOK(Cases[c].ev[p])
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
