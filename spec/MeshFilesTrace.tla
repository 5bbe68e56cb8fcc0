--------------------------- MODULE MeshFilesTrace ---------------------------
(* C24: recorded readings of files.  A case has the contents of the file (k: the format) and what the        *)
(* reader r and the Preprocessor's meshes m0 (periodicity ignored) and m1 made of it.                        *)
EXTENDS MeshFiles, Json, IOUtils
VARIABLES c, p, ok, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
(* o.el[i] = [x |-> vertices, z |-> zone, n |-> vertex numbers] *)
SameElements(m, o) == /\ Len(o) = Len(m.el)
                      /\ \A i \in DOMAIN o : /\ Len(o[i].x) = Len(m.el[i].x) /\ o[i].z = m.el[i].z
                                             /\ Figure(m.dim, o[i].x, "hpgem") = Figure(m.dim, m.el[i].x, m.format)
Nodes(o) == LET u == UNION {{<<o[i].n[v], o[i].x[v]>> : v \in DOMAIN o[i].x} : i \in DOMAIN o} IN
            {{q[2] : q \in {r \in u : r[1] = k}} : k \in {q[1] : q \in u}}
Good(m, r) == /\ r.dim = m.dim
              /\ {r.co[i] : i \in DOMAIN r.co} = m.points /\ Len(r.co) = Cardinality(m.points)
              /\ SameElements(m, r.el)
              /\ SameElements(m, r.m0) /\ SameElements(m, r.m1)
              /\ [i \in DOMAIN r.me |-> Ran(r.me[i])] = m.merges
              /\ Nodes(r.m0) = Shared(m, FALSE) /\ Nodes(r.m1) = Shared(m, TRUE)
(* hpGEM's own format: nodes with their coordinates, elements as (node, coordinate) pairs, owners *)
GoodOwn(f, r) == /\ r.dim = f.dim /\ Len(r.m1) = Len(f.el)
                 /\ \A i \in DOMAIN f.el : /\ r.m1[i].x = [v \in DOMAIN f.el[i] |-> f.nodes[f.el[i][v][1]][f.el[i][v][2]]]
                                           /\ r.m1[i].z = "Main"
                 /\ Nodes(r.m1) = {{f.nodes[n][q[2]] : q \in {w \in UNION {Ran(f.el[i]) : i \in DOMAIN f.el} : w[1] = n}} : n \in DOMAIN f.nodes}
                 /\ r.np = f.np /\ r.ow = f.ow
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ st = Empty
TNext == /\ c <= Len(Cases)
         /\ LET k == Cases[c] IN
            IF k.k = "gmsh" /\ p > 0 /\ p <= Len(k.secs) THEN p' = p + 1 /\ c' = c /\ ok' = ok /\ st' = Step(st, k.secs[p])
            ELSE IF ~ok THEN UNCHANGED <<c, p, ok, st>>
            ELSE /\ c' = IF p # 0 THEN c ELSE c + K
                 /\ IF p # 0 THEN /\ p' = 0 /\ st' = st
                                  /\ ok' = (CASE k.k = "gmsh" -> Good(TLCEval(GmshMesh(st)), k.r)
                                              [] k.k = "centaur" -> Good(TLCEval(CentaurMesh(k.f)), k.r)
                                              [] k.k = "hpgem" -> GoodOwn(k.f, k.r))
                    ELSE p' = 1 /\ st' = Empty /\ ok' = TRUE
TSpec == TInit /\ [][TNext]_<<c, p, ok, st>>
TraceOK == ok
=============================================================================
