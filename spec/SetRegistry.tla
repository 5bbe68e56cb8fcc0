----------------------------- MODULE SetRegistry -----------------------------
(* C21: sets of basis functions registered with one element, per unknown and place.  A place is the interior *)
(* <<0, 0>>, a facet <<1, k>>, an edge <<2, k>> or a node <<3, k>>.  A default (interior) set replaces        *)
(* everything the unknown had; a set for another place replaces the one of that place only.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Unknowns, Places, Sets, MaxOps
VARIABLES reg, hist
Size == <<3, 1, 2, 0, 4>>          \* functions of the sets 0..4
Empty == <<>>                      \* nothing registered: a function with empty domain
Put(r, pl, s) == IF pl = <<0, 0>> THEN [x \in {pl} |-> s] ELSE [x \in (DOMAIN r) \cup {pl} |-> IF x = pl THEN s ELSE r[x]]
(* us: the unknowns concerned *)
Apply(g, us, pl, s) == [u \in DOMAIN g |-> IF u \in us THEN Put(g[u], pl, s) ELSE g[u]]
Cleared(g) == [u \in DOMAIN g |-> Empty]
RECURSIVE SumOver(_, _)
SumOver(r, d) == IF d = {} THEN 0 ELSE LET x == CHOOSE x \in d : TRUE IN Size[r[x] + 1] + SumOver(r, d \ {x})
Count(r) == SumOver(r, DOMAIN r)
Inner(r) == IF <<0, 0>> \in DOMAIN r THEN Size[r[<<0, 0>>] + 1] ELSE 0
Tags(s) == [k \in 1..Size[s + 1] |-> 100 * s + k - 1]
Init == reg = [u \in Unknowns |-> Empty] /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E pl \in Places, s \in Sets, us \in {Unknowns} \cup {{u} : u \in Unknowns} :
                /\ reg' = Apply(reg, us, pl, s)
                /\ hist' = Append(hist, [op |-> "put", pl |-> pl, s |-> s, u |-> IF us = Unknowns THEN 0 - 1 ELSE CHOOSE u \in us : TRUE])
           \/ reg' = Cleared(reg) /\ hist' = Append(hist, [op |-> "clear", pl |-> <<0, 0>>, s |-> 0, u |-> 0 - 1])
Spec == Init /\ [][Next]_<<reg, hist>>
(* an operation on one unknown leaves the others alone, one on a place other than the interior the other places *)
Local == [][LET o == hist'[Len(hist')] IN o.op = "put" =>
              /\ \A u \in Unknowns : o.u \notin {0 - 1, u} => reg'[u] = reg[u]
              /\ o.pl # <<0, 0>> => \A u \in Unknowns : \A x \in DOMAIN reg[u] : x # o.pl => reg'[u][x] = reg[u][x]]_<<reg, hist>>
=============================================================================
