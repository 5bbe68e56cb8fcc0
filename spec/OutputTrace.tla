---------------------------- MODULE OutputTrace ----------------------------
(* C19: visualisation files written by the real writers on one or more processes, read back. A case has the *)
(* owned elements of every process (id, vertices) and the written files of several runs.                    *)
EXTENDS OutputFiles, VtkCells, TLC, Json, IOUtils
VARIABLES c, p, ok
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
Pad(x) == [d \in 1..3 |-> IF d <= Len(x) THEN x[d] ELSE 0]
Weight(x) == (IF Len(x) > 0 THEN x[1] ELSE 0) + (IF Len(x) > 1 THEN 2 * x[2] ELSE 0) + (IF Len(x) > 2 THEN 3 * x[3] ELSE 0)
Val(id, l, n, comp, x) == 7 * id + 1000 * l + 131 * n + 17 * comp + Weight(x)
Comps(k) == CASE k = "s" -> 1 [] k = "v" -> 3 [] k = "t" -> 9
(* the values of field f of element id at x *)
Values(dim, id, l, f, x) ==
   CASE f.k = "s" -> <<Val(id, l, f.n, 0, x)>>
     [] f.k = "v" -> [i \in 1..3 |-> IF i <= dim THEN Val(id, l, f.n, i - 1, x) ELSE 0]
     [] f.k = "t" -> [i \in 1..9 |-> LET a == (i - 1) \div 3 b == (i - 1) % 3 IN
                        IF a < dim /\ b < dim THEN Val(id, l, f.n, 3 * a + b, x) ELSE IF a = b THEN 1 ELSE 0]
Start(pc, i) == IF i = 1 THEN 0 ELSE pc.off[i - 1]
CellPts(pc, i) == [j \in 1..(pc.off[i] - Start(pc, i)) |-> pc.pts[pc.con[Start(pc, i) + j] + 1]]
PieceOK(dim, els, order, frame, pc) ==
   LET want == [e \in DOMAIN els |-> [j \in DOMAIN CellPoints(dim, els[e].co, order) |-> Pad(CellPoints(dim, els[e].co, order)[j])]] IN
   /\ pc.np = Len(pc.pts) /\ pc.nc = Len(pc.off) /\ Len(pc.ty) = pc.nc /\ pc.pc = 3
   /\ \A i \in 1..pc.nc : pc.off[i] >= Start(pc, i)
   /\ Len(pc.con) = (IF pc.nc = 0 THEN 0 ELSE pc.off[pc.nc])
   /\ \A i \in DOMAIN pc.con : pc.con[i] \in 0..(pc.np - 1)
   /\ Cardinality({pc.con[i] : i \in DOMAIN pc.con}) = pc.np             \* points are not shared and none is unused
   /\ pc.nc = Len(els)
   /\ \A e \in DOMAIN els : \E i \in 1..pc.nc :
         /\ pc.ty[i] = CellType(dim, Len(els[e].co), order)
         /\ CellPts(pc, i) = want[e]
         /\ \A g \in DOMAIN frame.f : \E h \in DOMAIN pc.fields :
              /\ pc.fields[h].n = frame.f[g].n
              /\ LET w == pc.fields[h].nc IN
                 \A j \in DOMAIN want[e] : LET q == pc.con[Start(pc, i) + j] IN
                    [k \in 1..w |-> pc.fields[h].v[w * q + k]] = Values(dim, els[e].id, frame.l, frame.f[g], [d \in 1..dim |-> want[e][j][d]])
   /\ Len(pc.fields) = Len(frame.f)
   /\ \A g \in DOMAIN frame.f : \E h \in DOMAIN pc.fields :
        /\ pc.fields[h].n = frame.f[g].n /\ pc.fields[h].nc = Comps(frame.f[g].k)
        /\ Len(pc.fields[h].v) = pc.np * pc.fields[h].nc
(* the index of one frame: every piece once and the same fields *)
FrameOK(cs, order, frame, x) ==
   /\ x.src = [r \in DOMAIN cs.el |-> x.name \o "." \o ToString(r - 1) \o ".vtu"]
   /\ x.pc = 3
   /\ Len(x.fields) = Len(frame.f)
   /\ \A g \in DOMAIN frame.f : \E h \in DOMAIN x.fields : x.fields[h].n = frame.f[g].n /\ x.fields[h].nc = Comps(frame.f[g].k)
   /\ Len(x.pieces) = Len(cs.el)
   /\ \A r \in DOMAIN cs.el : PieceOK(cs.dim, cs.el[r], order, frame, x.pieces[r])
TimeOK(cs, run) ==
   LET fr == Frames(run.calls) IN
   /\ Len(run.index) = Len(fr) /\ Len(run.frames) = Len(fr)
   /\ \A i \in DOMAIN fr : /\ run.index[i].t = fr[i].t
                           /\ run.index[i].f = run.frames[i].name \o ".pvtu"
                           /\ FrameOK(cs, run.order, fr[i], run.frames[i])
   /\ \A i, j \in DOMAIN fr : run.frames[i].name = run.frames[j].name => i = j
SingleOK(cs, run) == FrameOK(cs, run.order, [t |-> 0, l |-> run.l, f |-> run.fields], run.frame)
(* zones of the other format, per process *)
ZoneOK(dim, els, z, x) ==
   LET b == 2 ^ dim
       rows(e) == [j \in 1..b |-> LET q == els[e].co[BrickOrder(dim, Len(els[e].co))[j]] IN
                      (IF z.same THEN <<>> ELSE q) \o <<Val(els[e].id, 0, z.n, 0, q), Val(els[e].id, 0, z.n, 1, q)>>] IN
   /\ x.N = b * Len(els) /\ x.E = Len(els) /\ x.title = z.title /\ x.same = z.same /\ x.t = z.t
   /\ Len(x.rows) = x.N
   /\ \A e \in DOMAIN els : \E i \in DOMAIN els : \A j \in 1..b : x.rows[(i - 1) * b + j] = rows(e)[j]
   /\ x.con = (IF z.same THEN <<>> ELSE [i \in 1..Len(els) |-> [j \in 1..b |-> (i - 1) * b + j]])
TecOK(cs, run) == \A r \in DOMAIN cs.el : /\ Len(run.files[r]) = Len(run.zones)
                                          /\ \A i \in DOMAIN run.zones : ZoneOK(cs.dim, cs.el[r], run.zones[i], run.files[r][i])
EventOK(cs, e) == CASE e.c = "time" -> TimeOK(cs, e) [] e.c = "single" -> SingleOK(cs, e) [] e.c = "tec" -> TecOK(cs, e) [] OTHER -> FALSE
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE c' = c /\ p' = p + 1 /\ ok' = EventOK(Cases[c], Cases[c].ev[p])
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
