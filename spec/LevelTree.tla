----------------------------- MODULE LevelTree -----------------------------
(* The mesh forest: every mesh entity lives in a tree of refinements.  An    *)
(* entry occupies the levels lv .. lv+dp-1 and its children start at lv+dp.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxEnts, MaxLvl

(* ent is a function from entry number to [par, lv, dp, kids]; par = 0 for a *)
(* root; entries are numbered 1, 2, .. in order of creation over the whole   *)
(* history (numbers are never reused).                                       *)
EmptyF == [ent |-> <<>>, roots |-> <<>>, next |-> 1]
Ids(f) == DOMAIN f.ent
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
NumLevels(f) == MaxOf({f.ent[i].lv + f.ent[i].dp : i \in Ids(f)})
IsLeaf(f, i) == f.ent[i].kids = <<>>

AddRoot(f) == [ent |-> (f.next :> [par |-> 0, lv |-> 0, dp |-> 1, kids |-> <<>>]) @@ f.ent,
               roots |-> Append(f.roots, f.next), next |-> f.next + 1]
(* children of q; the level argument stretches q over the levels in between  *)
AddKids(f, q, n, lvl) ==
    LET new == [k \in 1..n |-> f.next + k - 1]
        d == lvl - f.ent[q].lv
    IN [ent |-> [i \in f.next..(f.next + n - 1) |-> [par |-> q, lv |-> lvl, dp |-> 1, kids |-> <<>>]]
                @@ [f.ent EXCEPT ![q].dp = d, ![q].kids = @ \o new],
        roots |-> f.roots, next |-> f.next + n]
KidLevel(f, q) == f.ent[q].lv + f.ent[q].dp
Fill(f, l) ==
    [f EXCEPT !.ent = [i \in Ids(f) |->
        IF IsLeaf(f, i) /\ f.ent[i].lv + f.ent[i].dp - 1 < l
        THEN [f.ent[i] EXCEPT !.dp = l - f.ent[i].lv + 1] ELSE f.ent[i]]]
RECURSIVE Desc(_, _)
Desc(f, i) == LET ks == f.ent[i].kids IN
    UNION {{ks[k]} \cup Desc(f, ks[k]) : k \in 1..Len(ks)}
EraseKids(f, q) ==
    [f EXCEPT !.ent = [i \in Ids(f) \ Desc(f, q) |->
        IF i = q THEN [f.ent[q] EXCEPT !.dp = 1, !.kids = <<>>] ELSE f.ent[i]]]
Clear(f) == [ent |-> <<>>, roots |-> <<>>, next |-> f.next]

Apply(f, e) ==
    CASE e.op = "root"  -> AddRoot(f)
      [] e.op = "child" -> AddKids(f, e.q, 1, KidLevel(f, e.q))
      [] e.op = "kids"  -> AddKids(f, e.q, e.n, KidLevel(f, e.q))
      [] e.op = "childL" -> AddKids(f, e.q, 1, e.l)
      [] e.op = "kidsL" -> AddKids(f, e.q, e.n, e.l)
      [] e.op = "fill"  -> Fill(f, e.l)
      [] e.op = "erase" -> EraseKids(f, e.q)
      [] e.op = "clear" -> Clear(f)

\* ------------------------------------------------------------- traversals
RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Concat(Tail(qs))
Rep(i, n) == [k \in 1..n |-> i]
RECURSIVE PreE(_, _), PostE(_, _), LevE(_, _, _)
PreE(f, i) == Rep(i, f.ent[i].dp) \o Concat([k \in 1..Len(f.ent[i].kids) |-> PreE(f, f.ent[i].kids[k])])
PostE(f, i) == Concat([k \in 1..Len(f.ent[i].kids) |-> PostE(f, f.ent[i].kids[k])]) \o Rep(i, f.ent[i].dp)
LevE(f, i, l) == IF f.ent[i].lv <= l /\ l < f.ent[i].lv + f.ent[i].dp THEN <<i>>
                 ELSE IF l < f.ent[i].lv THEN <<>>
                 ELSE Concat([k \in 1..Len(f.ent[i].kids) |-> LevE(f, f.ent[i].kids[k], l)])
Pre(f) == Concat([r \in 1..Len(f.roots) |-> PreE(f, f.roots[r])])
Post(f) == Concat([r \in 1..Len(f.roots) |-> PostE(f, f.roots[r])])
OnLevel(f, l) == Concat([r \in 1..Len(f.roots) |-> LevE(f, f.roots[r], l)])
All(f) == Concat([k \in 1..NumLevels(f) |-> OnLevel(f, k - 1)])
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]

\* ------------------------------------------------------------------ model
VARIABLES f, hist
vars == <<f, hist>>
Init == f = EmptyF /\ hist = <<>>
Do(e) == f' = Apply(f, e) /\ hist' = Append(hist, e)
(* children of one entry all start at the same level, below the levels that  *)
(* the entry already occupies (adding children never shrinks their parent)   *)
LvlOK(q, l) == IF IsLeaf(f, q) THEN l >= KidLevel(f, q) ELSE l = KidLevel(f, q)
Next == /\ Len(hist) < MaxOps
        /\ \/ f.next <= MaxEnts /\ Do([op |-> "root"])
           \/ \E q \in Ids(f) : f.next <= MaxEnts /\ KidLevel(f, q) < MaxLvl /\ Do([op |-> "child", q |-> q])
           \/ \E q \in Ids(f) : f.next < MaxEnts /\ KidLevel(f, q) < MaxLvl /\ Do([op |-> "kids", q |-> q, n |-> 2])
           \/ \E q \in Ids(f), l \in 1..(MaxLvl - 1) :
                 f.next <= MaxEnts /\ LvlOK(q, l) /\ Do([op |-> "childL", q |-> q, l |-> l])
           \/ \E q \in Ids(f), l \in 1..(MaxLvl - 1) :
                 f.next < MaxEnts /\ LvlOK(q, l) /\ Do([op |-> "kidsL", q |-> q, n |-> 2, l |-> l])
           \/ \E l \in 0..(MaxLvl - 1) : Ids(f) # {} /\ Do([op |-> "fill", l |-> l])
           \/ \E q \in Ids(f) : Do([op |-> "erase", q |-> q])
           \/ Ids(f) # {} /\ Do([op |-> "clear"])
Spec == Init /\ [][Next]_vars
NoHist == f

SeqSet(q) == {q[k] : k \in 1..Len(q)}
WellFormed ==
    /\ SeqSet(f.roots) = {i \in Ids(f) : f.ent[i].par = 0}
    /\ \A i \in Ids(f) : f.ent[i].dp >= 1
    /\ \A i \in Ids(f) : f.ent[i].par # 0 =>
          /\ f.ent[i].par \in Ids(f)
          /\ i \in SeqSet(f.ent[f.ent[i].par].kids)
          /\ f.ent[i].lv = KidLevel(f, f.ent[i].par)
    /\ \A i \in Ids(f) : \A k \in 1..Len(f.ent[i].kids) : f.ent[f.ent[i].kids[k]].par = i
Visits(q, i) == Cardinality({k \in 1..Len(q) : q[k] = i})
(* every traversal visits every entry once for each level it occupies        *)
VisitCounts == \A q \in {Pre(f), Post(f), All(f)} :
                  /\ SeqSet(q) = Ids(f)
                  /\ \A i \in Ids(f) : Visits(q, i) = f.ent[i].dp
Ordering ==
    LET a == Pre(f) b == Post(f)
        Fst(q, i) == CHOOSE k \in 1..Len(q) : q[k] = i /\ \A m \in 1..(k - 1) : q[m] # i
    IN \A i \in Ids(f) : f.ent[i].par # 0 =>
          /\ Fst(a, f.ent[i].par) < Fst(a, i)
          /\ Fst(b, i) < Fst(b, f.ent[i].par)
Emit == IF Len(hist) = MaxOps THEN PrintT(<<"H", ToJson(hist)>>) ELSE TRUE
=============================================================================
