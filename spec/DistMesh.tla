------------------------------ MODULE DistMesh ------------------------------
(* A mesh file and the way the processes read it.                            *)
(*                                                                           *)
(* A file M is a record                                                      *)
(*   np          number of processes                                         *)
(*   ne, nn      number of elements, nodes                                   *)
(*   el[k]       sequence of the nodes of element k                          *)
(*   ow[k]       owning process;  sh[k] sequence of shadow processes          *)
(*   fa, ed      sequences of entities, an entity being the sequence of its  *)
(*               incidences <<element, local number>>                        *)
(* Every process scans the whole file.  It keeps the items of its own        *)
(* partition and its halo, and consumes an identifier for every item, also   *)
(* those it does not keep, so that identifiers agree between processes        *)
(* without communication.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets

SeqSet(q) == {q[i] : i \in 1..Len(q)}
Parts(M, k) == {M.ow[k]} \cup SeqSet(M.sh[k])
Local(M, p) == {k \in 1..M.ne : p \in Parts(M, k)}
Owned(M, p) == {k \in 1..M.ne : M.ow[k] = p}
Ghosts(M, p) == Local(M, p) \ Owned(M, p)

(* incidences of the three kinds of lower dimensional entities *)
NodeInc(M, n) == {<<k, i - 1>> : <<k, i>> \in {<<kk, ii>> \in (1..M.ne) \X (1..10) :
                       ii <= Len(M.el[kk]) /\ M.el[kk][ii] = n}}
Inc(M, kind, x) == IF kind = "no" THEN NodeInc(M, x)
                   ELSE IF kind = "fa" THEN SeqSet(M.fa[x]) ELSE SeqSet(M.ed[x])
Count(M, kind) == IF kind = "no" THEN M.nn ELSE IF kind = "fa" THEN Len(M.fa) ELSE Len(M.ed)
(* what process p keeps of entity x *)
Kept(M, p, I) == {i \in I : i[1] \in Local(M, p)}
PartsOf(M, I) == UNION {Parts(M, i[1]) : i \in I}
OwnersOf(M, I) == {M.ow[i[1]] : i \in I}

(* what a face is, seen from p; "any" where p owns neither side *)
FaceClass(M, p, I) ==
    IF Cardinality(I) = 1 THEN "boundary"
    ELSE IF Cardinality(Kept(M, p, I)) = 1 THEN "partial"
    ELSE IF OwnersOf(M, I) = {p} THEN "internal"
    ELSE IF p \in OwnersOf(M, I) THEN "subdomain" ELSE "any"

(* the halo a valid file has to declare: neighbours through nodes *)
HaloOf(M, k) == {M.ow[j] : j \in {jj \in 1..M.ne : SeqSet(M.el[jj]) \cap SeqSet(M.el[k]) # {}}} \ {M.ow[k]}
ValidFile(M) == \A k \in 1..M.ne : SeqSet(M.sh[k]) = HaloOf(M, k)

(* exchange lists: what A sends to B and what B expects from A, in file order *)
RECURSIVE Filter(_, _, _)
Filter(n, S, acc) == IF n = 0 THEN acc ELSE Filter(n - 1, S, IF n \in S THEN <<n>> \o acc ELSE acc)
PushList(M, a, b) == Filter(M.ne, {k \in Owned(M, a) : b \in SeqSet(M.sh[k])}, <<>>)
PullList(M, b, a) == Filter(M.ne, {k \in Ghosts(M, b) : M.ow[k] = a}, <<>>)

\* ------------------------------------------------- the readers as a system
(* Each process reads nodes, then elements, then faces, one item per step.   *)
CONSTANTS MaxE, MaxN, NP, NodesPer
VARIABLES M, pos, nextId, kept, push, pull
vars == <<M, pos, nextId, kept, push, pull>>
P == 1..NP
Kinds == {"no", "el", "fa"}

(* entity of codimension 1 in the model: one face per node (a 1D mesh), so   *)
(* that NodesPer = 2 gives all small graphs as meshes                        *)
FacesFromNodes(el, ne, nn) ==
    [n \in 1..nn |->
        LET I == {<<k, i>> \in (1..ne) \X (1..NodesPer) : el[k][i] = n}
            S == CHOOSE q \in [1..Cardinality(I) -> I] : \A i, j \in 1..Cardinality(I) :
                     i < j => (q[i][1] < q[j][1] \/ (q[i][1] = q[j][1] /\ q[i][2] < q[j][2]))
        IN [i \in 1..Cardinality(I) |-> <<S[i][1], S[i][2] - 1>>]]
SetToAscSeq(S) == Filter(NP, S, <<>>)
Files ==
    {LET m0 == [ne |-> ne, nn |-> MaxN, np |-> NP, el |-> el, ow |-> ow, sh |-> [k \in 1..ne |-> <<>>],
                fa |-> FacesFromNodes(el, ne, MaxN), ed |-> <<>>]
     IN [m0 EXCEPT !.sh = [k \in 1..ne |-> SetToAscSeq(HaloOf(m0, k))]] :
        ne \in {MaxE}, el \in {e \in [1..MaxE -> [1..NodesPer -> 1..MaxN]] : \A k \in 1..MaxE : \A i, j \in 1..NodesPer : i # j => e[k][i] # e[k][j]},
        ow \in [1..MaxE -> P]}

Init == /\ M \in Files
        /\ pos = [p \in P |-> [no |-> 1, el |-> 1, fa |-> 1]]
        /\ nextId = [p \in P |-> [no |-> 0, el |-> 0, fa |-> 0]]
        /\ kept = [p \in P |-> [no |-> {}, el |-> {}, fa |-> {}]]     \* <<file index, identifier>>
        /\ push = [p \in P |-> [q \in P |-> <<>>]]
        /\ pull = [p \in P |-> [q \in P |-> <<>>]]
Advance(p, kind, keep) ==
    /\ pos' = [pos EXCEPT ![p][kind] = @ + 1]
    /\ nextId' = [nextId EXCEPT ![p][kind] = @ + 1]       \* consumed whether or not the item is kept
    /\ kept' = IF keep THEN [kept EXCEPT ![p][kind] = @ \cup {<<pos[p][kind], nextId[p][kind]>>}] ELSE kept
ReadNode(p) == /\ pos[p].no <= M.nn
               /\ Advance(p, "no", p \in PartsOf(M, NodeInc(M, pos[p].no)))
               /\ UNCHANGED <<M, push, pull>>
ReadElement(p) ==
    LET k == pos[p].el IN
    /\ pos[p].no > M.nn /\ k <= M.ne
    /\ Advance(p, "el", p \in Parts(M, k))
    /\ push' = IF M.ow[k] = p THEN [push EXCEPT ![p] = [q \in P |-> IF q \in SeqSet(M.sh[k]) THEN Append(@[q], k) ELSE @[q]]] ELSE push
    /\ pull' = IF p \in SeqSet(M.sh[k]) THEN [pull EXCEPT ![p][M.ow[k]] = Append(@, k)] ELSE pull
    /\ UNCHANGED M
ReadFace(p) == /\ pos[p].el > M.ne /\ pos[p].fa <= Len(M.fa)
               /\ Advance(p, "fa", p \in PartsOf(M, SeqSet(M.fa[pos[p].fa])))
               /\ UNCHANGED <<M, push, pull>>
Next == \E p \in P : ReadNode(p) \/ ReadElement(p) \/ ReadFace(p)
Spec == Init /\ [][Next]_vars

Done(p) == pos[p].fa > Len(M.fa)
(* C05 *)
SameIdentifiers == \A p, q \in P : \A kind \in Kinds : \A x \in kept[p][kind], y \in kept[q][kind] :
                        (x[1] = y[1]) = (x[2] = y[2])
ExactlyTheAssigned == \A p \in P : Done(p) =>
    /\ {x[1] : x \in kept[p].el} = Local(M, p)
    /\ {x[1] : x \in kept[p].no} = {n \in 1..M.nn : Kept(M, p, NodeInc(M, n)) # {}}
    /\ {x[1] : x \in kept[p].fa} = {f \in 1..Len(M.fa) : Kept(M, p, SeqSet(M.fa[f])) # {}}
OwnedOnce == \A k \in 1..M.ne : Cardinality({p \in P : k \in Owned(M, p)}) = 1
(* whoever owns one side of a face has both sides *)
OwnedFacesComplete == \A p \in P : \A f \in 1..Len(M.fa) :
    p \in OwnersOf(M, SeqSet(M.fa[f])) => Kept(M, p, SeqSet(M.fa[f])) = SeqSet(M.fa[f])
(* C03 *)
Mirror == \A a, b \in P : Done(a) /\ Done(b) => /\ push[a][b] = pull[b][a]
                                               /\ push[a][b] = PushList(M, a, b)
                                               /\ pull[b][a] = PullList(M, b, a)
                                               /\ SeqSet(push[a][b]) \subseteq Owned(M, a)
                                               /\ SeqSet(push[a][b]) \subseteq Ghosts(M, b)
=============================================================================
