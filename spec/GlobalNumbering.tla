--------------------------- MODULE GlobalNumbering ---------------------------
(* Numbering of the degrees of freedom of a distributed mesh (C02).          *)
(*                                                                           *)
(* Part 1: what a numbering has to satisfy, over a table of records          *)
(*   <<rank, object, unknown, count, first number, local first>> of the      *)
(*   objects with basis functions that each process owns.                    *)
(* Part 2: the protocol by which the numbers reach the halo: everybody       *)
(*   numbers what it owns, prefix sums give the process blocks, one round of *)
(*   messages for the elements of the halo with the faces/edges/nodes the    *)
(*   sender owns, a barrier, a second round for the objects whose owner has  *)
(*   no element in the halo of the receiver, a barrier.  Messages of both    *)
(*   rounds look alike to the receiver (any source, same tag).               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- part 1
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[4] + SumSet(S \ {x})
Range(x) == x[5] .. (x[5] + x[4] - 1)
Numbers(S) == UNION {Range(x) : x \in S}
(* numbers 0..N-1, each used once *)
Bijection(own) == LET N == SumSet(own) IN Cardinality(Numbers(own)) = N /\ Numbers(own) = 0..(N - 1)
Contiguous(A) == A = {} \/ \E lo \in A : A = lo .. (lo + Cardinality(A) - 1)
Before(A, B) == \A a \in A, b \in B : a < b
OfRank(own, r) == {x \in own : x[1] = r}
OfUnknown(own, u) == {x \in own : x[3] = u}
(* layout 0: per process; 1: per process, in it per unknown; 2: per unknown, in it per process *)
LayoutOK(own, np, us, layout) ==
    LET G == TLCEval([r \in 1..np |-> Numbers(OfRank(own, r))])
        U == TLCEval([r \in 1..np |-> [u \in us |-> Numbers(OfUnknown(OfRank(own, r), u))]])
    IN /\ layout \in {0, 1} =>
            (\A r \in 1..np : Contiguous(G[r])) /\ (\A r, q \in 1..np : r < q => Before(G[r], G[q]))
       /\ layout \in {1, 2} =>
            \A r \in 1..np : (\A u \in us : Contiguous(U[r][u])) /\ (\A u, v \in us : u < v => Before(U[r][u], U[r][v]))
       /\ layout = 2 =>
            /\ \A u, v \in us : u < v => \A r, q \in 1..np : Before(U[r][u], U[q][v])
            /\ \A u \in us : \A r, q \in 1..np : r < q => Before(U[r][u], U[q][u])
       /\ layout = 0 =>     \* all basis functions of one object consecutively, unknown after unknown
            \A x, y \in own : x[2] = y[2] /\ x[3] < y[3] =>
                 y[5] = x[5] + SumSet({z \in own : z[2] = x[2] /\ z[3] >= x[3] /\ z[3] < y[3]})
(* the process-local numbers follow the order of the global ones *)
LocalOf(G, g) == Cardinality({h \in G : h < g})
LocalOK(own, np) == \A r \in 1..np : LET G == TLCEval(Numbers(OfRank(own, r)))
                                     IN \A x \in OfRank(own, r) : x[6] = LocalOf(G, x[5])

\* ---------------------------------------------------------------- part 2
CONSTANTS Topologies,  \* set of meshes: sequences of elements, an element being a sequence of nodes
          NP, Layouts, US, Barriers
VARIABLES el, ow, first, layout, pc, know, chan, todo1, todo2, second
vars == <<el, ow, first, layout, pc, know, chan, todo1, todo2, second>>
P == 1..NP
NE == Len(el)
NodesOf(e) == {e[i] : i \in 1..Len(e)}
Nodes == UNION {NodesOf(el[k]) : k \in 1..NE}
At(n) == {k \in 1..NE : n \in NodesOf(el[k])}
Owner(o) == IF o[1] = 0 THEN ow[o[2]] ELSE ow[first[o[2]]]
Objects == {<<0, k>> : k \in 1..NE} \cup {<<3, n>> : n \in Nodes}
(* elements carry one function per unknown, nodes one for the first unknown and two for others *)
W(o, u) == IF o[1] = 3 /\ u > 0 THEN 2 ELSE 1
Halo(k) == {ow[j] : j \in {i \in 1..NE : NodesOf(el[i]) \cap NodesOf(el[k]) # {}}} \ {ow[k]}
Knows(p) == {k \in 1..NE : ow[k] = p \/ p \in Halo(k)}
PushTo(p, q) == {k \in 1..NE : ow[k] = p /\ q \in Halo(k)}
(* traversal order of what p owns: element, its nodes, next element *)
Key(o) == IF o[1] = 0 THEN <<o[2], 0>> ELSE <<first[o[2]], o[2]>>
Less(a, b) == Key(a)[1] < Key(b)[1] \/ (Key(a)[1] = Key(b)[1] /\ Key(a)[2] < Key(b)[2])
RECURSIVE SumW(_, _)
SumW(S, us) == IF S = {} THEN 0 ELSE LET o == CHOOSE x \in S : TRUE IN
               LET RECURSIVE sw(_) sw(V) == IF V = {} THEN 0 ELSE LET v == CHOOSE x \in V : TRUE IN W(o, v) + sw(V \ {v})
               IN sw(us) + SumW(S \ {o}, us)
Mine(p) == {o \in Objects : Owner(o) = p}
LessU(u) == {v \in US : v < u}
Number(o, u) ==
    LET p == Owner(o)
        lower == {x \in Objects : Owner(x) < p}
        prev == {x \in Mine(p) : Less(x, o)}
    IN CASE layout = 0 -> SumW(lower, US) + SumW(prev, US) + SumW({o}, LessU(u))
         [] layout = 1 -> SumW(lower, US) + SumW(Mine(p), LessU(u)) + SumW(prev, {u})
         [] layout = 2 -> SumW(Objects, LessU(u)) + SumW(lower, {u}) + SumW(prev, {u})
Facts(S) == {<<o, u, Number(o, u)>> : o \in S, u \in US}
OwnTable == {<<Owner(o), o, u, W(o, u), Number(o, u), LocalOf(UNION {Number(x, v) .. (Number(x, v) + W(x, v) - 1) : x \in Mine(Owner(o)), v \in US}, Number(o, u))>> :
               o \in Objects, u \in US}
NodesFor(p, q) == UNION {NodesOf(el[k]) : k \in PushTo(p, q)}
Round1(p, q) == {<<0, k>> : k \in PushTo(p, q)} \cup {<<3, n>> : n \in {m \in NodesFor(p, q) : Owner(<<3, m>>) = p}}
Round2(p, q) == {<<3, n>> : n \in {m \in NodesFor(p, q) : Owner(<<3, m>>) # p /\ ~\E k \in At(m) : ow[k] = q}}
(* a message can only be made from what the sender knows at that time *)
Known(p, S) == {f \in know[p] : f[1] \in S}

Init ==
    /\ el \in Topologies
    /\ ow \in [1..Len(el) -> P]
    /\ first \in {f \in [UNION {NodesOf(el[k]) : k \in 1..Len(el)} -> 1..Len(el)] : \A n \in DOMAIN f : n \in NodesOf(el[f[n]])}
    /\ layout \in Layouts
    /\ pc = [p \in P |-> "send1"]
    /\ know = [p \in P |-> Facts({o \in Objects : Owner(o) = p})]
    /\ chan = [p \in P |-> [q \in P |-> <<>>]]
    /\ todo1 = [p \in P |-> Cardinality({q \in P : PushTo(q, p) # {}})]
    /\ todo2 = [p \in P |-> 0]
    /\ second = [p \in P |-> {}]
Stay == UNCHANGED <<el, ow, first, layout>>
Send1(p) == /\ pc[p] = "send1"
            /\ chan' = [chan EXCEPT ![p] = [q \in P |-> IF PushTo(p, q) # {}
                           THEN Append(@[q], [round |-> 1, more |-> Round2(p, q) # {}, facts |-> Known(p, Round1(p, q)), need |-> Facts(Round1(p, q))])
                           ELSE @[q]]]
            /\ pc' = [pc EXCEPT ![p] = "recv1"]
            /\ Stay /\ UNCHANGED <<know, todo1, todo2, second>>
Recv1(p) == /\ pc[p] = "recv1"
            /\ IF todo1[p] = 0
               THEN pc' = [pc EXCEPT ![p] = IF Barriers THEN "bar1" ELSE "send2"] /\ UNCHANGED <<know, chan, todo1, todo2>>
               ELSE \E q \in P : /\ chan[q][p] # <<>>
                                 /\ LET m == Head(chan[q][p]) IN
                                    /\ know' = [know EXCEPT ![p] = @ \cup m.facts]
                                    /\ todo2' = [todo2 EXCEPT ![p] = @ + (IF m.more THEN 1 ELSE 0)]
                                    \* receiving a message of the wrong round is what the barrier prevents
                                    /\ todo1' = [todo1 EXCEPT ![p] = @ - 1]
                                    /\ chan' = [chan EXCEPT ![q][p] = Tail(@)]
                                    /\ pc' = IF m.round = 1 THEN pc ELSE [pc EXCEPT ![p] = "mixed"]
            /\ Stay /\ UNCHANGED second
Barrier1 == /\ \A p \in P : pc[p] = "bar1"
            /\ pc' = [p \in P |-> "send2"]
            /\ Stay /\ UNCHANGED <<know, chan, todo1, todo2, second>>
Send2(p) == /\ pc[p] = "send2"
            /\ chan' = [chan EXCEPT ![p] = [q \in P |-> IF Round2(p, q) # {}
                           THEN Append(@[q], [round |-> 2, more |-> FALSE, facts |-> Known(p, Round2(p, q)), need |-> Facts(Round2(p, q))])
                           ELSE @[q]]]
            /\ pc' = [pc EXCEPT ![p] = "recv2"]
            /\ Stay /\ UNCHANGED <<know, todo1, todo2, second>>
Recv2(p) == /\ pc[p] = "recv2"
            /\ IF todo2[p] = 0 THEN pc' = [pc EXCEPT ![p] = "bar2"] /\ UNCHANGED <<know, chan, todo2>>
               ELSE \E q \in P : /\ chan[q][p] # <<>>
                                 /\ know' = [know EXCEPT ![p] = @ \cup Head(chan[q][p]).facts]
                                 /\ todo2' = [todo2 EXCEPT ![p] = @ - 1]
                                 /\ chan' = [chan EXCEPT ![q][p] = Tail(@)]
                                 /\ UNCHANGED pc
            /\ Stay /\ UNCHANGED <<todo1, second>>
Barrier2 == /\ \A p \in P : pc[p] = "bar2"
            /\ pc' = [p \in P |-> "done"]
            /\ Stay /\ UNCHANGED <<know, chan, todo1, todo2, second>>
AllDone == \A p \in P : pc[p] = "done"
Next == \/ \E p \in P : Send1(p) \/ Recv1(p) \/ Send2(p) \/ Recv2(p)
        \/ Barrier1 \/ Barrier2
        \/ (AllDone /\ UNCHANGED vars)          \* anything else that cannot move is a deadlock
Spec == Init /\ [][Next]_vars

NumberingOK == /\ Bijection(OwnTable) /\ LayoutOK(OwnTable, NP, US, layout) /\ LocalOK(OwnTable, NP)
NoMixing == \A p \in P : pc[p] # "mixed"
MessagesComplete == \A p, q \in P : \A i \in 1..Len(chan[p][q]) : chan[p][q][i].facts = chan[p][q][i].need
EverybodyAgrees == AllDone => \A p \in P :
    /\ know[p] = Facts({o \in Objects : IF o[1] = 0 THEN o[2] \in Knows(p) ELSE At(o[2]) \cap Knows(p) # {}})
    /\ \A q \in P : chan[q][p] = <<>>
(* numbers do not change while messages travel: checking them needs no steps *)
NumbersOnly == Init /\ [][FALSE]_vars
\* configurations
Line3 == {<< <<1, 2>>, <<2, 3>>, <<3, 4>> >>}
Shapes3 == Line3 \cup {<< <<1, 2>>, <<1, 3>>, <<1, 4>> >>, << <<1, 2>>, <<2, 3>>, <<3, 1>> >>}
Tri4 == {<< <<1, 2, 3>>, <<2, 3, 4>>, <<3, 4, 5>> >>, << <<1, 2, 3>>, <<3, 4, 5>>, <<5, 6, 1>> >>}
Line4 == {<< <<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 5>> >>}
=============================================================================
