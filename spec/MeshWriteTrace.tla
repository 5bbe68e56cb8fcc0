--------------------------- MODULE MeshWriteTrace ---------------------------
(* C06: mesh files written for an assignment of elements to parts, read back token by token. *)
EXTENDS PrepMesh, TLC, Json, IOUtils
VARIABLES c, p, ok
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
NoDup(s) == Cardinality(Ran(s)) = Len(s)
(* f = the file: nn, ne, dim, cnt (faces, edges), np, tot, zones, nodes[i] = [p, x], el[i] = [n, own, sh, z], en[k] = codimension k *)
FileOK(m, part, np, f) ==
   LET E == DOMAIN m.el
       NodesOf(e) == Ran(m.el[e].s[1])
       Owners(n) == {part[u[1]] : u \in Ran(m.en[1][n])}
       Around == [e \in E |-> UNION {Owners(n) : n \in NodesOf(e)}]            \* owner and shadows
       FileUses(n) == UNION {{<<e, v>> : v \in {w \in DOMAIN f.el[e].n : f.el[e].n[w][1] = n}} : e \in E}
       PartsOf(us) == UNION {Around[u[1]] : u \in us} IN
   /\ f.nn = Len(m.en[1]) /\ f.ne = Len(m.el) /\ f.dim = m.dim /\ f.np = np
   /\ f.cnt = [k \in 1..(m.dim - 1) |-> Len(m.en[m.dim - k + 1])]
   /\ Len(f.nodes) = f.nn /\ Len(f.el) = f.ne /\ Len(f.en) = m.dim - 1
   /\ \A k \in 1..(m.dim - 1) : Len(f.en[k]) = f.cnt[k]
   /\ NoDup(f.zones)
   /\ \A e \in E :
        /\ Len(f.el[e].n) = Nv(m, e)
        /\ \A v \in DOMAIN f.el[e].n : LET q == f.el[e].n[v] IN
              /\ q[1] \in DOMAIN f.nodes /\ q[2] \in DOMAIN f.nodes[q[1]].x
              /\ f.nodes[q[1]].x[q[2]] = m.co[m.el[e].c[v]].x                  \* its own geometry
        /\ f.el[e].own = part[e]
        /\ NoDup(f.el[e].sh) /\ Ran(f.el[e].sh) = Around[e] \ {part[e]}
        /\ f.el[e].z \in DOMAIN f.zones /\ f.zones[f.el[e].z] = m.el[e].z
   /\ {FileUses(n) : n \in DOMAIN f.nodes} \ {{}} = Classes(m, 0)
   /\ \A n \in DOMAIN f.nodes : /\ NoDup(f.nodes[n].p) /\ NoDup(f.nodes[n].x)
                                /\ Ran(f.nodes[n].p) = PartsOf(FileUses(n))
   /\ \A k \in 1..(m.dim - 1) :
        /\ {Ran(f.en[k][i].u) : i \in DOMAIN f.en[k]} \ {{}} = Classes(m, m.dim - k)
        /\ \A i \in DOMAIN f.en[k] : /\ NoDup(f.en[k][i].u) /\ NoDup(f.en[k][i].p)
                                     /\ Ran(f.en[k][i].p) = PartsOf(Ran(f.en[k][i].u))
   /\ Len(f.tot) = np /\ \A q \in 1..np : f.tot[q] = Cardinality({n \in DOMAIN f.nodes : q \in Ran(f.nodes[n].p)})
EventOK(e) == CASE e.c = "write" -> FileOK(e.m, e.p, e.np, e.file)
                [] e.c = "error" -> FALSE
                [] OTHER -> TRUE
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE c' = c /\ p' = p + 1 /\ ok' = EventOK(Cases[c].ev[p])
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
