----------------------------- MODULE EvalContext -----------------------------
(* C14: evaluation contexts (PhysicalElement, PhysicalFace).  A context has a current selection: an element  *)
(* (or face), a point and a transformation per unknown.  The point is given directly or as a point of a      *)
(* quadrature rule.  It may keep what it computed, but every answer is that of the current selection.        *)
(* The storage for results is empty whenever it is handed out and handed out once per selection.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Elements, Points, Rules, RulePoints, Trans, Unknowns, Quantities, Depends, MaxOps
VARIABLES sel, cache, clean, hist
vars == <<sel, cache, clean, hist>>
Nothing == [none |-> TRUE]
Val(x) == [none |-> FALSE, of |-> x]
-----------------------------------------------------------------------------
(* the selection: el and pt are <<>> while there is none; rule is <<>> if no rule is in use *)
Start == [el |-> <<>>, pt |-> <<>>, rule |-> <<>>, tr |-> [u \in {0} |-> 0], max |-> 0]
Eff(s, u) == IF u \in DOMAIN s.tr THEN s.tr[u] ELSE s.tr[0]
Apply(s, o) ==
   CASE o.op = "el" -> [s EXCEPT !.el = <<o.a>>]
     [] o.op = "pt" -> [s EXCEPT !.pt = <<0, o.a>>, !.rule = <<>>]
     [] o.op = "rule" -> [s EXCEPT !.rule = o.a, !.pt = o.a \o <<0>>]
     [] o.op = "qp" -> [s EXCEPT !.pt = s.rule \o <<o.a>>]
     [] o.op = "tr" -> [s EXCEPT !.tr = [u \in DOMAIN s.tr \cup {o.u} |-> IF u = o.u THEN o.a ELSE s.tr[u]], !.max = IF o.u > @ THEN o.u ELSE @]
Allowed(s, o) ==
   CASE o.op = "el" -> TRUE
     [] o.op \in {"pt", "rule"} -> s.el # <<>>
     [] o.op = "qp" -> s.rule # <<>> /\ s.el # <<>>
     [] o.op = "tr" -> o.u <= s.max \/ s.el = <<>>       \* a transformation for a further unknown is set before there is an element
Ready(s) == s.el # <<>> /\ s.pt # <<>>
Part(s, d) == CASE d = "el" -> s.el [] d = "pt" -> s.pt [] d = "tr" -> [u \in Unknowns |-> Eff(s, u)]
Answer(s, q) == [d \in Depends[q] |-> Part(s, d)]
Concerns(o) == CASE o.op = "el" -> "el" [] o.op = "tr" -> "tr" [] OTHER -> "pt"
-----------------------------------------------------------------------------
Ops == {[op |-> "el", a |-> e, u |-> 0] : e \in Elements} \cup {[op |-> "pt", a |-> p, u |-> 0] : p \in Points}
       \cup {[op |-> "rule", a |-> r, u |-> 0] : r \in Rules} \cup {[op |-> "qp", a |-> i, u |-> 0] : i \in RulePoints}
       \cup {[op |-> "tr", a |-> t, u |-> u] : t \in Trans, u \in Unknowns}
Init == sel = Start /\ cache = [q \in Quantities |-> Nothing] /\ clean = TRUE /\ hist = <<>>
Set(o) == /\ Allowed(sel, o)
          /\ sel' = Apply(sel, o)
          (* what depends on the part that changed is forgotten *)
          /\ cache' = [q \in Quantities |-> IF Concerns(o) \in Depends[q] THEN Nothing ELSE cache[q]]
          /\ clean' = TRUE
          /\ hist' = Append(hist, o)
Ask(q) == /\ Ready(sel)
          /\ cache' = IF cache[q].none THEN [cache EXCEPT ![q] = Val(Answer(sel, q))] ELSE cache
          /\ UNCHANGED <<sel, clean, hist>>
Take == Ready(sel) /\ clean /\ clean' = FALSE /\ UNCHANGED <<sel, cache, hist>>
Next == (Len(hist) < MaxOps /\ \E o \in Ops : Set(o)) \/ (\E q \in Quantities : Ask(q)) \/ Take
Spec == Init /\ [][Next]_vars
(* never stale *)
Fresh == \A q \in Quantities : cache[q].none \/ cache[q].of = Answer(sel, q)
=============================================================================
