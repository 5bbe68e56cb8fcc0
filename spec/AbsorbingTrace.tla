--------------------------- MODULE AbsorbingTrace ---------------------------
(* C36: recorded transmissions of every process, tensors at points, and materials of zones.                         *)
EXTENDS AbsorbingLayers, Json, IOUtils
VARIABLES c, p, ok
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
Number(m, e) == 1 + SumOver((DOMAIN m.co[e]) \X (DOMAIN m.co[e][1]), LAMBDA x : (2 * x[2] - 1) * m.co[e][x[1]][x[2]])
TransOK(m, e) ==
   LET num == TLCEval([k \in DOMAIN m.zn |-> Number(m, k)])
       dirs == TLCEval([k \in DOMAIN m.zn |-> IF num[k] % 4 = 0 THEN <<>> ELSE e.dirs[m.zn[k]]])
       L == TLCEval(Layers(m, dirs))
       w(k) == num[k]
       (* sizes are in units of the mesh file (or twice their square), of which there are 8 to a unit *)
       unit == IF Len(m.lo) = 2 THEN 8 ELSE 128
       want == TLCEval([i \in DOMAIN L |-> LET F == FacesOf(m, dirs, L[i]) IN <<unit * Total(m, F, w), Area(m, F)>>])
   IN \A q \in DOMAIN e.r : /\ e.r[q].names = [i \in DOMAIN L |-> m.names[L[i]]]
                            /\ Len(e.r[q].tr) = Len(L)
                            /\ \A i \in DOMAIN L : e.r[q].tr[i][1] * want[i][2] = e.r[q].tr[i][2] * want[i][1]
TensorOK(e) ==
   LET d == Len(e.r)
       cv(y) == IF d = 2 THEN 3 ELSE y            (* the direction of a component of a curl *)
       comps == IF d = 2 THEN {1} ELSE 1..3
       v(k) == e.v[k]
       vc(k) == Conj(e.v[k])
   IN /\ \A k \in 1..d : /\ DivOK(e.r, k, e.n, e.eps, v(k), e.div[k])
                         /\ DivOK(e.r, k, e.n, e.eps, vc(k), Conj(e.diva[k]))
                         /\ FieldOK(e.r, k, e.n, v(k), e.field[k])
      /\ \A k \in comps : /\ CurlOK(e.r, cv(k), e.n, e.mu, v(k), e.curl[k])
                          /\ CurlOK(e.r, cv(k), e.n, e.mu, vc(k), Conj(e.curla[k]))
                          /\ CurlFieldOK(e.r, cv(k), e.n, v(k), e.cfield[k])
MatOK(m, e) == \A q \in DOMAIN e.r : \A i \in DOMAIN e.r[q] :
   LET w == Material(e.ps, e.def, m.letters[e.r[q][i][1]]) IN e.r[q][i][2] = w
EventOK(m, e) == CASE e.k = "trans" -> TransOK(m, e) [] e.k = "tensor" -> \A i \in DOMAIN e.ev : TensorOK(e.ev[i]) [] e.k = "mat" -> MatOK(m, e)
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE c' = c /\ p' = p + 1 /\ ok' = EventOK(Cases[c].mesh, Cases[c].ev[p])
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
