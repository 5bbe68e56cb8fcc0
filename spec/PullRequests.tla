---------------------------- MODULE PullRequests ----------------------------
(* Exchange lists between processes and requests for more of them (C03).     *)
(* know[p]: elements process p has; own[k]: owner; push, pull: the lists;    *)
(* pend[p]: requests of p not processed yet.  Processing is collective: all  *)
(* processes take part, each request is answered by the owner.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
SeqSet(q) == {q[i] : i \in 1..Len(q)}

(* What collective processing must achieve: nothing already in the lists     *)
(* moves, every requested foreign element that is not yet pulled is appended *)
(* once, on both sides in the same order.  The order of the additions is the *)
(* implementation's choice, hence a predicate.                               *)
Wanted(own, pull, pend, p, q) == {k \in pend[p] : own[k] = q /\ q # p} \ SeqSet(pull[p][q])
IsPrefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : t[i] = s[i]
Processed(P, own, push, pull, pend, push2, pull2) ==
    \A p, q \in P :
       /\ IsPrefix(pull[p][q], pull2[p][q])
       /\ SeqSet(pull2[p][q]) = SeqSet(pull[p][q]) \cup Wanted(own, pull, pend, p, q)
       /\ Len(pull2[p][q]) = Cardinality(SeqSet(pull2[p][q]))
       /\ push2[q][p] = pull2[p][q]

\* ------------------------------------------------------------------ model
CONSTANTS NP, NE, MaxOps
VARIABLES own, know, push, pull, pend, n, hist
vars == <<own, know, push, pull, pend, n, hist>>
P == 1..NP
E == 1..NE
Empty == [p \in P |-> [q \in P |-> <<>>]]
(* initial lists: any halo H \subseteq know, in ascending order *)
RECURSIVE Asc(_, _, _)
Asc(k, S, acc) == IF k = 0 THEN acc ELSE Asc(k - 1, S, IF k \in S THEN <<k>> \o acc ELSE acc)
Init == /\ own \in [E -> P]
        /\ know \in [P -> SUBSET E]
        /\ \A k \in E : k \in know[own[k]]
        /\ \E h \in [P -> SUBSET E] :
              /\ \A p \in P : h[p] \subseteq {k \in know[p] : own[k] # p}
              /\ pull = [p \in P |-> [q \in P |-> Asc(NE, {k \in h[p] : own[k] = q}, <<>>)]]
              /\ push = [q \in P |-> [p \in P |-> Asc(NE, {k \in h[p] : own[k] = q}, <<>>)]]
        /\ pend = [p \in P |-> {}] /\ n = 0 /\ hist = <<>>
Request(p, k) == /\ k \in know[p]
                 /\ pend' = [pend EXCEPT ![p] = @ \cup {k}]
                 /\ n' = n + 1 /\ hist' = Append(hist, <<"r", p, k>>)
                 /\ UNCHANGED <<own, know, push, pull>>
(* one admissible implementation: ascending order per round *)
Process == /\ pull' = [p \in P |-> [q \in P |-> pull[p][q] \o Asc(NE, Wanted(own, pull, pend, p, q), <<>>)]]
           /\ push' = [q \in P |-> [p \in P |-> push[q][p] \o Asc(NE, Wanted(own, pull, pend, p, q), <<>>)]]
           /\ pend' = [p \in P |-> {}] /\ n' = n + 1 /\ hist' = Append(hist, <<"x">>)
           /\ UNCHANGED <<own, know>>
Next == n < MaxOps /\ (Process \/ \E p \in P, k \in E : Request(p, k))
Spec == Init /\ [][Next]_vars
Mirror == \A p, q \in P : push[p][q] = pull[q][p]
Sound == \A p, q \in P : /\ Len(pull[p][q]) = Cardinality(SeqSet(pull[p][q]))
                         /\ \A k \in SeqSet(pull[p][q]) : own[k] = q /\ q # p /\ k \in know[p]
NoHist == <<own, know, push, pull, pend, n>>
(* the step of the model is admissible *)
ProcessOK == [][Process => Processed(P, own, push, pull, pend, push', pull')]_vars
Emit == IF n = MaxOps /\ hist[n][1] = "x" THEN PrintT(<<"H", ToJson(hist)>>) ELSE TRUE
=============================================================================
