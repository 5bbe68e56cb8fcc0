------------------------------ MODULE HaloSync ------------------------------
(* The synchronisation of a coefficient vector between time steps: every process posts a receive for each   *)
(* element it pulls, then sends each element it pushes (tagged by the element), waits for all its requests, *)
(* and passes a barrier. Messages of different elements overtake each other freely. Then the owners change  *)
(* their coefficients and the next round starts.                                                            *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS NP, NE, Rounds
VARIABLES owner, pull, pc, val, ghost, posted, sent, net, round
vars == <<owner, pull, pc, val, ghost, posted, sent, net, round>>
P == 1..NP
E == 1..NE
Init == /\ owner \in [E -> P]
        /\ pull \in [P -> SUBSET E] /\ \A p \in P : \A e \in pull[p] : owner[e] # p
        /\ pc = [p \in P |-> "post"] /\ val = [e \in E |-> 1] /\ ghost = [p \in P |-> [e \in E |-> 0]]
        /\ posted = [p \in P |-> {}] /\ sent = [p \in P |-> {}] /\ net = {} /\ round = 1
push(p) == {<<q, e>> \in P \X E : owner[e] = p /\ e \in pull[q]}
Post(p) == pc[p] = "post" /\ pc' = [pc EXCEPT ![p] = "send"] /\ posted' = [posted EXCEPT ![p] = pull[p]]
           /\ UNCHANGED <<owner, pull, val, ghost, sent, net, round>>
Send(p) == /\ pc[p] = "send"
           /\ IF push(p) = sent[p] THEN pc' = [pc EXCEPT ![p] = "wait"] /\ UNCHANGED <<net, sent>>
              ELSE LET m == CHOOSE m \in push(p) \ sent[p] : TRUE IN
                   /\ net' = net \cup {[to |-> m[1], from |-> p, tag |-> m[2], x |-> val[m[2]]]}
                   /\ sent' = [sent EXCEPT ![p] = @ \cup {m}] /\ pc' = pc
           /\ UNCHANGED <<owner, pull, val, ghost, posted, round>>
Deliver(m) == /\ m \in net /\ m.tag \in posted[m.to] /\ owner[m.tag] = m.from
              /\ net' = net \ {m} /\ ghost' = [ghost EXCEPT ![m.to][m.tag] = m.x]
              /\ posted' = [posted EXCEPT ![m.to] = @ \ {m.tag}]
              /\ UNCHANGED <<owner, pull, pc, val, sent, round>>
Wait(p) == pc[p] = "wait" /\ posted[p] = {} /\ (\A m \in net : m.from # p) /\ pc' = [pc EXCEPT ![p] = "barrier"]
           /\ UNCHANGED <<owner, pull, val, ghost, posted, sent, net, round>>
Next2 == /\ \A p \in P : pc[p] = "barrier" /\ round < Rounds
         /\ round' = round + 1 /\ val' = [e \in E |-> val[e] * 2 + e] /\ pc' = [p \in P |-> "post"]
         /\ sent' = [p \in P |-> {}] /\ UNCHANGED <<owner, pull, ghost, posted, net>>
Done == (\A p \in P : pc[p] = "barrier") /\ round = Rounds /\ UNCHANGED vars
Next == (\E p \in P : Post(p) \/ Send(p) \/ Wait(p)) \/ (\E m \in net : Deliver(m)) \/ Next2 \/ Done
Spec == Init /\ [][Next]_vars
(* whoever has passed its wait has the owner's coefficients in all its ghosts *)
GhostsAgree == \A p \in P : pc[p] = "barrier" => \A e \in pull[p] : ghost[p][e] = val[e]
=============================================================================
