------------------------------ MODULE MeshFiles ------------------------------
(* C24: what the files that the Preprocessor reads mean.                                                    *)
(* gmsh (msh 2.2, text): a sequence of sections, read one after the other (Step).  Centaur (hyb): groups of  *)
(* records.  hpGEM (mesh 1): tables of nodes and elements.  In all of them the mesh is a sequence of         *)
(* elements, each with its vertices (given by their coordinates: distinct vertices have distinct ones) in    *)
(* the order of that format, and a zone; and identifications of vertices.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ran(s) == {s[i] : i \in DOMAIN s}
(* The shapes: edges between corners <<a, b, m>>, m the node halfway (-1: none), counted from 0.             *)
Sides(dim, n, format) ==
   CASE dim = 1 /\ n = 2 -> {<<0,1,-1>>}
     [] dim = 1 /\ n = 3 -> IF format = "hpgem" THEN {<<0,2,1>>} ELSE {<<0,1,2>>}
     [] dim = 2 /\ n = 3 -> {<<0,1,-1>>, <<1,2,-1>>, <<2,0,-1>>}
     [] dim = 2 /\ n = 4 -> IF format = "hpgem" THEN {<<0,1,-1>>, <<0,2,-1>>, <<1,3,-1>>, <<2,3,-1>>}
                            ELSE {<<0,1,-1>>, <<1,2,-1>>, <<2,3,-1>>, <<3,0,-1>>}
     [] dim = 2 /\ n = 6 -> IF format = "hpgem" THEN {<<0,2,1>>, <<0,5,3>>, <<2,5,4>>}
                            ELSE {<<0,1,3>>, <<1,2,4>>, <<2,0,5>>}
     [] dim = 3 /\ n = 4 -> {<<0,1,-1>>, <<0,2,-1>>, <<0,3,-1>>, <<1,2,-1>>, <<1,3,-1>>, <<2,3,-1>>}
     [] dim = 3 /\ n = 5 -> IF format = "hpgem"
                            THEN {<<0,1,-1>>, <<0,2,-1>>, <<0,3,-1>>, <<0,4,-1>>, <<1,2,-1>>, <<2,4,-1>>, <<3,4,-1>>, <<1,3,-1>>}
                            ELSE {<<4,0,-1>>, <<4,1,-1>>, <<4,2,-1>>, <<4,3,-1>>, <<0,1,-1>>, <<1,2,-1>>, <<2,3,-1>>, <<3,0,-1>>}
     [] dim = 3 /\ n = 6 -> {<<0,1,-1>>, <<0,2,-1>>, <<1,2,-1>>, <<3,4,-1>>, <<3,5,-1>>, <<4,5,-1>>, <<0,3,-1>>, <<1,4,-1>>, <<2,5,-1>>}
     [] dim = 3 /\ n = 8 -> IF format = "hpgem"
                            THEN {<<0,1,-1>>, <<2,3,-1>>, <<4,5,-1>>, <<6,7,-1>>, <<0,2,-1>>, <<1,3,-1>>, <<4,6,-1>>, <<5,7,-1>>,
                                  <<0,4,-1>>, <<1,5,-1>>, <<2,6,-1>>, <<3,7,-1>>}
                            ELSE {<<0,1,-1>>, <<1,2,-1>>, <<2,3,-1>>, <<3,0,-1>>, <<4,5,-1>>, <<5,6,-1>>, <<6,7,-1>>, <<7,4,-1>>,
                                  <<0,4,-1>>, <<1,5,-1>>, <<2,6,-1>>, <<3,7,-1>>}
     [] dim = 3 /\ n = 10 -> IF format = "hpgem" THEN {<<0,2,1>>, <<0,5,3>>, <<2,5,4>>, <<0,9,6>>, <<2,9,7>>, <<5,9,8>>}
                             ELSE IF format = "gmsh" THEN {<<0,1,4>>, <<1,2,5>>, <<0,2,6>>, <<0,3,7>>, <<2,3,8>>, <<1,3,9>>}
                             ELSE {<<0,1,4>>, <<1,2,5>>, <<0,2,6>>, <<0,3,7>>, <<1,3,8>>, <<2,3,9>>}
ShapesOf == {<<1,2>>, <<1,3>>, <<2,3>>, <<2,4>>, <<2,6>>, <<3,4>>, <<3,5>>, <<3,6>>, <<3,8>>, <<3,10>>}
(* the element as a figure, whatever the order in which its vertices are listed *)
Figure(dim, s, format) == {<<{s[e[1] + 1], s[e[2] + 1]}, IF e[3] < 0 THEN <<>> ELSE s[e[3] + 1]>> : e \in Sides(dim, Len(s), format)}

(* ---- gmsh ---- *)
TypeDim(t) == CASE t \in {1, 8} -> 1 [] t \in {2, 3, 9} -> 2 [] t \in {4, 5, 6, 7, 11} -> 3 [] t = 15 -> 0
Empty == [names |-> {}, nodes |-> <<>>, raw |-> <<>>, data |-> <<>>, per |-> <<>>]
(* sec.v: names <<dim, tag, name>>; nodes <<tag, x, y, z>>; elements [t |-> type, g |-> tags, v |-> nodes];
   data <<element, value>>; per: for every pair of entities a sequence of <<node, master node>>              *)
Step(st, sec) == CASE sec.k = "names"    -> [st EXCEPT !.names = @ \cup Ran(sec.v)]
                   [] sec.k = "nodes"    -> [st EXCEPT !.nodes = @ \o sec.v]
                   [] sec.k = "elements" -> [st EXCEPT !.raw = @ \o sec.v]
                   [] sec.k = "data"     -> [st EXCEPT !.data = @ \o sec.v]
                   [] sec.k = "periodic" -> [st EXCEPT !.per = sec.v]
                   [] OTHER -> st
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Extent(p) == IF p[4] # 0 THEN 3 ELSE IF p[3] # 0 THEN 2 ELSE IF p[2] # 0 THEN 1 ELSE 0
Dim(st) == MaxOf({x[1] : x \in st.names} \cup {Extent(p) : p \in Ran(st.nodes)} \cup {0})
At(st, d) == LET i == TLCEval([t \in {st.nodes[k][1] : k \in DOMAIN st.nodes} |-> CHOOSE k \in DOMAIN st.nodes : st.nodes[k][1] = t])
             IN [t \in DOMAIN i |-> SubSeq(st.nodes[i[t]], 2, d + 1)]
TagOf(st, n) == LET d == {i \in DOMAIN st.data : st.data[i][1] = n} IN
                IF st.names = {} /\ d # {} THEN <<st.data[MaxOf(d)][2]>>
                ELSE IF Len(st.raw[n].g) > 0 THEN <<st.raw[n].g[1]>> ELSE <<>>
ZoneOf(st, dim, n) == LET t == TagOf(st, n)
                     N == {x \in st.names : x[1] = dim /\ t # <<>> /\ x[2] \in {t[1], 0 - t[1]}} IN
                 IF t = <<>> THEN "Main" ELSE IF N # {} THEN (CHOOSE x \in N : TRUE)[3] ELSE ToString(t[1])
Top(st, d) == SelectSeq([n \in DOMAIN st.raw |-> n], LAMBDA n : TypeDim(st.raw[n].t) = d)
(* the mesh: elements (vertices in the order of the format) with zones, points, identifications *)
GmshMesh(st) == LET d == TLCEval(Dim(st))
                    at == TLCEval(At(st, d))
                    top == TLCEval(Top(st, d))
                    zone == TLCEval([i \in DOMAIN top |-> ZoneOf(st, d, top[i])]) IN
   [dim |-> d, format |-> "gmsh", points |-> {at[t] : t \in DOMAIN at},
    el |-> [i \in DOMAIN top |-> [x |-> [v \in DOMAIN st.raw[top[i]].v |-> at[st.raw[top[i]].v[v]]], z |-> zone[i]]],
    merges |-> [i \in DOMAIN st.per |-> {<<at[q[1]], at[q[2]]>> : q \in Ran(st.per[i])}]]

(* ---- Centaur ---- *)
(* f.dim, f.points, f.groups[t]: the elements of type t (vertex numbers), f.extra[t]: further nodes of them, *)
(* f.zones: sequence of [n |-> name, s |-> number of the first element of every type]; none: one zone        *)
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
ZoneIn(f, t, i) == IF f.zones = <<>> THEN "default"
                   ELSE f.zones[MaxOf({k \in DOMAIN f.zones : f.zones[k].s[t] <= i})].n
CentaurMesh(f) ==
   [dim |-> f.dim, format |-> "cgns", points |-> Ran(f.points),
    el |-> Concat([t \in DOMAIN f.groups |-> [i \in DOMAIN f.groups[t] |->
             [x |-> [v \in DOMAIN f.groups[t][i] |-> f.points[f.groups[t][i][v]]] \o
                    (IF f.extra = <<>> THEN <<>> ELSE [v \in DOMAIN f.extra[t][i] |-> f.points[f.extra[t][i][v]]]),
              z |-> ZoneIn(f, t, i)]]]),
    \* a pair with node number 0 does not identify anything
    merges |-> [i \in DOMAIN f.per |-> {<<f.points[q[1]], f.points[q[2]]>> : q \in {r \in Ran(f.per[i]) : r[2] # 0}}]]

(* ---- identifications ---- *)
RECURSIVE Settle(_, _)
Settle(lab, P) == LET lo == {p \in P : lab[p[1]] # lab[p[2]]} IN
                  IF lo = {} THEN lab
                  ELSE LET p == CHOOSE q \in lo : TRUE
                           a == lab[p[1]]
                           b == lab[p[2]] IN Settle(TLCEval([x \in DOMAIN lab |-> IF lab[x] = b THEN a ELSE lab[x]]), P)
(* the points that become one vertex of the mesh *)
Classes(m, periodic) == LET lab == TLCEval(Settle([x \in m.points |-> x], IF periodic THEN UNION Ran(m.merges) ELSE {})) IN
                        {{y \in m.points : lab[y] = lab[x]} : x \in m.points}
UsedPoints(m) == UNION {Ran(m.el[i].x) : i \in DOMAIN m.el}
Shared(m, periodic) == {k \cap UsedPoints(m) : k \in Classes(m, periodic)} \ {{}}
=============================================================================
