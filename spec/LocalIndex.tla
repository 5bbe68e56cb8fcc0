----------------------------- MODULE LocalIndex -----------------------------
(* Local numbering of the basis functions of a selection of unknowns on an   *)
(* element (one side) or a face (up to two sides).  Counts: functions per    *)
(* unknown of every side.  A selection is a set; layout is by side, then by  *)
(* unknown in increasing order, then by function.                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
CountOf(n, u) == IF u + 1 \in DOMAIN n THEN n[u + 1] ELSE 0
RECURSIVE SumSel(_, _)
SumSel(n, S) == IF S = {} THEN 0 ELSE LET u == CHOOSE x \in S : TRUE IN CountOf(n, u) + SumSel(n, S \ {u})
(* sides: sequence of count tables (empty: nothing selected) *)
SideTotal(sides, sel, s) == IF s \in DOMAIN sides THEN SumSel(sides[s], sel) ELSE 0
RECURSIVE TotalBefore(_, _, _)
TotalBefore(sides, sel, s) == IF s = 1 THEN 0 ELSE SideTotal(sides, sel, s - 1) + TotalBefore(sides, sel, s - 1)
Total(sides, sel) == TotalBefore(sides, sel, Len(sides) + 1)
Offset(sides, sel, s, u) == IF s \in DOMAIN sides /\ u \in sel THEN TotalBefore(sides, sel, s) + SumSel(sides[s], {v \in sel : v < u}) ELSE 0 - 1
Num(sides, sel, s, u) == IF s \in DOMAIN sides /\ u \in sel THEN CountOf(sides[s], u) ELSE 0
Index(sides, sel, s, u, i) == Offset(sides, sel, s, u) + i
Mapping(sides, sel, u) == LET part(s) == [i \in 1..Num(sides, sel, s, u) |-> Index(sides, sel, s, u, i - 1)]
                          IN IF Len(sides) = 0 THEN <<>> ELSE IF Len(sides) = 1 THEN part(1) ELSE part(1) \o part(2)
\* ------------------------------------------------------------------- model
(* An indexing object remembers the last selection and the last object, in whatever order they were given. *)
CONSTANTS Unknowns, Objects, MaxOps     \* Objects: set of sequences of count tables
VARIABLES sel, obj, hist
vars == <<sel, obj, hist>>
Init == sel = {} /\ obj = <<>> /\ hist = <<>>
SetUnknowns(S) == sel' = S /\ obj' = obj /\ hist' = Append(hist, [op |-> "u", s |-> Sorted(S), k |-> 0])
SetObject(k, o) == obj' = o /\ sel' = sel /\ hist' = Append(hist, [op |-> "e", s |-> <<>>, k |-> k])
Next == Len(hist) < MaxOps /\ (\/ \E S \in SUBSET Unknowns : SetUnknowns(S)
                               \/ \E k \in 0..Len(Objects) : SetObject(k, IF k = 0 THEN <<>> ELSE Objects[k]))
Spec == Init /\ [][Next]_vars
NoHist == <<sel, obj>>
(* the numbers of all functions of selected unknowns are 0..Total-1, each once, in (side, unknown, function) order *)
Fns == UNION {{<<s, u, i>> : i \in 0..(Num(obj, sel, s, u) - 1)} : s \in 1..Len(obj), u \in Unknowns}
Before(a, b) == \/ a[1] < b[1]
                \/ (a[1] = b[1] /\ a[2] < b[2])
                \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])
Bijection == /\ {Index(obj, sel, f[1], f[2], f[3]) : f \in Fns} = 0..(Total(obj, sel) - 1)
             /\ Cardinality(Fns) = Total(obj, sel)
             /\ \A f, g \in Fns : Before(f, g) <=> Index(obj, sel, f[1], f[2], f[3]) < Index(obj, sel, g[1], g[2], g[3])
NotSelected == \A s \in 1..2, u \in Unknowns : (u \notin sel \/ s > Len(obj)) => Offset(obj, sel, s, u) = 0 - 1 /\ Num(obj, sel, s, u) = 0
MappingIs == \A u \in Unknowns : \A i \in DOMAIN Mapping(obj, sel, u) : \E f \in Fns : f[2] = u /\ Mapping(obj, sel, u)[i] = Index(obj, sel, f[1], f[2], f[3])
Emit == IF Len(hist) = MaxOps THEN PrintT(<<"H", ToJson(hist)>>) ELSE TRUE
=============================================================================
