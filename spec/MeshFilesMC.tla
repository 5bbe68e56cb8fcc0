---------------------------- MODULE MeshFilesMC ----------------------------
(* All small msh files: the order of the sections and the numbering of the nodes do not change the mesh;     *)
(* every element has a zone; and the shapes of the formats are the same figures (a renumbering exists).      *)
(* Generation: the sequences of sections, for the replay.                                                    *)
EXTENDS MeshFiles, Json
CONSTANTS MaxSecs, Kinds
VARIABLES st, hist, other
Nodes == <<<<1, 0, 0, 0>>, <<2, 2, 0, 0>>, <<3, 0, 2, 0>>>>
Tags == [1..3 -> 1..4]
Re(f, s) == [i \in DOMAIN s |-> <<f[s[i][1]], s[i][2], s[i][3], s[i][4]>>]
El(g, t, v) == [t |-> t, g |-> g, v |-> v]
Sections(f) == <<[k |-> "nodes", v |-> Re(f, Nodes)],
                [k |-> "names", v |-> << <<2, 7, "a">>, <<1, 7, "b">> >>],
                [k |-> "names", v |-> << <<1, 7, "b">> >>],
                [k |-> "elements", v |-> <<El(<<7, 1>>, 1, <<f[1], f[2]>>), El(<<7, 1>>, 2, <<f[1], f[2], f[3]>>), El(<<>>, 2, <<f[2], f[3], f[1]>>)>>],
                [k |-> "data", v |-> << <<2, 5>> >>],
                [k |-> "periodic", v |-> << << <<f[2], f[1]>> >> >>],
                [k |-> "skip"]>>
Id == [i \in 1..3 |-> i]
\* `other` reads the same sections in another order and with other node numbers
Init == st = Empty /\ hist = <<>> /\ other \in {f \in Tags : \A i, j \in 1..3 : i # j => f[i] # f[j]}
Next == /\ Len(hist) < MaxSecs
        /\ \E q \in DOMAIN Sections(Id) : LET s == Sections(Id)[q] IN (s.k # "skip" => \A i \in DOMAIN hist : hist[i].k # s.k) /\ hist' = Append(hist, s) /\ st' = Step(st, s)
        /\ UNCHANGED other
Spec == Init /\ [][Next]_<<st, hist, other>>
RECURSIVE Read(_, _, _)
Renum(f, s) == IF s.k = "nodes" THEN [s EXCEPT !.v = Re(f, @)]
               ELSE IF s.k = "elements" THEN [s EXCEPT !.v = [i \in DOMAIN @ |-> [@[i] EXCEPT !.v = [j \in DOMAIN @ |-> f[@[j]]]]]]
               ELSE IF s.k = "periodic" THEN [s EXCEPT !.v = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> <<f[@[i][j][1]], f[@[i][j][2]]>>]]]
               ELSE s
Read(f, s, a) == IF s = <<>> THEN a ELSE Read(f, Tail(s), Step(a, Renum(f, Head(s))))
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Whole == {"nodes", "elements"} \subseteq {hist[i].k : i \in DOMAIN hist}
Independent == Whole => GmshMesh(Read(other, Reverse(hist), Empty)) = GmshMesh(st)
Zoned == Whole => \A i \in DOMAIN GmshMesh(st).el : GmshMesh(st).el[i].z # ""
\* shapes: for every one some renumbering turns the listing of a format into hpGEM's
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
SameFigure == \A s \in {x \in ShapesOf : x[2] <= 6} : \A fm \in {"gmsh", "cgns"} :
                 \E f \in Perms(s[2]) : Figure(s[1], [i \in 1..s[2] |-> <<f[i]>>], "hpgem") = Figure(s[1], [i \in 1..s[2] |-> <<i>>], fm)
CubeOrder == <<5, 6, 1, 2, 8, 7, 4, 3>>
ASSUME SameFigure
ASSUME Figure(3, [i \in 1..8 |-> <<CubeOrder[i]>>], "hpgem") = Figure(3, [i \in 1..8 |-> <<i>>], "gmsh")
(* generation *)
GInit == st = Empty /\ hist = <<>> /\ other = <<>>
GNext == /\ Len(hist) < MaxSecs
         /\ \E k \in Kinds : /\ (k # "skip" => \A i \in DOMAIN hist : hist[i] # k)
                             /\ (k = "data" => \E i \in DOMAIN hist : hist[i] = "elements")
                             /\ hist' = Append(hist, k)
         /\ UNCHANGED <<st, other>>
\* gmsh defines physical names before they are used
GOrder == \A i, j \in DOMAIN hist : (hist[i] = "names" /\ hist[j] = "data") => i < j
GSpec == GInit /\ [][GNext]_<<st, hist, other>>
Emit == ({"nodes", "elements"} \subseteq Ran(hist) /\ GOrder) => PrintT(<<"H", ToJson(hist)>>)
=============================================================================
