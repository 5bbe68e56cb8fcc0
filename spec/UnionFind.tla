----------------------------- MODULE UnionFind -----------------------------
(* Disjoint sets over an unbounded index range: the abstract state is the    *)
(* partition of the indices that were ever united with a different index.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Idx, MaxOps

InitUF == {}                       \* set of disjoint, non-singleton classes

ClassOf(P, x) == IF \E S \in P : x \in S THEN CHOOSE S \in P : x \in S ELSE {x}
Members(P) == UNION P
Same(P, x, y) == ClassOf(P, x) = ClassOf(P, y)
Unite(P, x, y) ==
    IF ClassOf(P, x) = ClassOf(P, y) THEN P
    ELSE (P \ {ClassOf(P, x), ClassOf(P, y)}) \cup {ClassOf(P, x) \cup ClassOf(P, y)}

(* the operations of the implementation; queries leave the partition alone *)
Apply(P, e) == IF e.op = "u" THEN Unite(P, e.x, e.y) ELSE P

\* ---------------------------------------------------------------- model
VARIABLES uf, pairs, hist
vars == <<uf, pairs, hist>>
Init == uf = InitUF /\ pairs = {} /\ hist = <<>>
DoUnion(x, y) == /\ uf' = Unite(uf, x, y)
                 /\ pairs' = pairs \cup {<<x, y>>, <<y, x>>}
                 /\ hist' = Append(hist, [op |-> "u", x |-> x, y |-> y])
DoFind(x) == /\ UNCHANGED <<uf, pairs>>
             /\ hist' = Append(hist, [op |-> "f", x |-> x, y |-> x])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E x, y \in Idx : DoUnion(x, y)
           \/ \E x \in Idx : DoFind(x)
Spec == Init /\ [][Next]_vars
NoHist == <<uf, pairs>>

RECURSIVE Reach(_, _)
Reach(R, S) == LET T == S \cup {y \in Idx : \E x \in S : <<x, y>> \in R}
               IN IF T = S THEN S ELSE Reach(R, T)
(* the partition is exactly the equivalence closure of the pairs united *)
Closure == \A x \in Idx : ClassOf(uf, x) = Reach(pairs, {x})
Partition == /\ \A S, T \in uf : S = T \/ S \cap T = {}
             /\ \A S \in uf : Cardinality(S) >= 2
NonSingleton == Members(uf) = {x \in Idx : \E y \in Idx : y # x /\ <<x, y>> \in pairs}
Emit == IF Len(hist) = MaxOps THEN PrintT(<<"H", ToJson(hist)>>) ELSE TRUE
=============================================================================
