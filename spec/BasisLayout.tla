----------------------------- MODULE BasisLayout -----------------------------
(* C21: which basis functions an element has.  Every unknown has a kind of basis and an order; a             *)
(* discontinuous (or monomial) basis belongs to the element, a conforming one is distributed over the        *)
(* interior, the faces, the edges and the nodes.  Assigning a basis replaces the previous one of the         *)
(* unknown(s) concerned and leaves the others alone.                                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Unknowns, Dgs, Confs, Monos, MaxOps      \* orders that are tried
VARIABLES b, hist
None == [k |-> "none", p |-> 0]
-----------------------------------------------------------------------------
(* number of functions *)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE (Choose(n - 1, k - 1) * n) \div k
Tri(n) == (n * (n + 1)) \div 2
Space(dim, nv, p) ==
   CASE dim = 1 -> p + 1
     [] dim = 2 /\ nv = 3 -> Choose(p + 2, 2)
     [] dim = 2 /\ nv = 4 -> (p + 1) * (p + 1)
     [] dim = 3 /\ nv = 4 -> Choose(p + 3, 3)
     [] dim = 3 /\ nv = 5 -> IF p = 0 THEN 1 ELSE 5                 \* only orders 0 and 1 exist
     [] dim = 3 /\ nv = 6 -> Choose(p + 2, 2) * (p + 1)
     [] dim = 3 /\ nv = 8 -> (p + 1) * (p + 1) * (p + 1)
Functions(dim, nv, x) ==
   CASE x.k = "none" -> 0
     [] x.k = "mono" -> Choose(x.p + dim, dim)
     [] OTHER -> Space(dim, nv, x.p)
(* functions of a conforming basis that belong to an entity of dimension d with m vertices *)
Bubble(d, m, p) ==
   CASE d = 0 -> 1
     [] d = 1 -> p - 1
     [] d = 2 /\ m = 3 -> IF p < 2 THEN 0 ELSE Tri(p - 2)
     [] d = 2 /\ m = 4 -> (p - 1) * (p - 1)
     [] d = 3 /\ m = 4 -> IF p < 3 THEN 0 ELSE Choose(p - 1, 3)
     [] d = 3 /\ m = 5 -> 0
     [] d = 3 /\ m = 6 -> IF p < 2 THEN 0 ELSE Tri(p - 2) * (p - 1)
     [] d = 3 /\ m = 8 -> (p - 1) * (p - 1) * (p - 1)
OnEntity(x, d, m) == IF x.k = "conf" THEN Bubble(d, m, x.p) ELSE 0
Interior(dim, nv, x) == IF x.k = "conf" THEN Bubble(dim, nv, x.p) ELSE Functions(dim, nv, x)
-----------------------------------------------------------------------------
(* operations *)
All(k, p) == [u \in Unknowns |-> [k |-> k, p |-> p]]
Apply(s, o) ==
   CASE o.op = "all" -> [u \in DOMAIN s |-> [k |-> o.k, p |-> o.p]]
     [] o.op = "one" -> [s EXCEPT ![o.u] = [k |-> o.k, p |-> o.p]]
     [] o.op = "clear" -> [u \in DOMAIN s |-> None]
     [] OTHER -> s
Ops == {[op |-> "all", k |-> "dg", p |-> p, u |-> 0] : p \in Dgs} \cup {[op |-> "all", k |-> "conf", p |-> p, u |-> 0] : p \in Confs}
       \cup {[op |-> "all", k |-> "mono", p |-> p, u |-> 0] : p \in Monos} \cup {[op |-> "clear", k |-> "", p |-> 0, u |-> 0]}
       (* a discontinuous basis for the first unknown alone is not offered *)
       \cup {[op |-> "one", k |-> "dg", p |-> p, u |-> u] : p \in Dgs, u \in Unknowns \ {0}}
       \cup {[op |-> "one", k |-> "conf", p |-> p, u |-> u] : p \in Confs, u \in Unknowns}
Init == b = [u \in Unknowns |-> None] /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : /\ hist = <<>> => o.op # "one"
                          /\ b' = Apply(b, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<b, hist>>
=============================================================================
