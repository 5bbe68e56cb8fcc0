------------------------------ MODULE Assembly ------------------------------
(* Assembly of global matrices and vectors from local ones.                   *)
(*                                                                            *)
(* Part 1: what the result must be.  A local matrix is a record               *)
(*   [row |-> sequence of global rows, col |-> sequence of global columns,    *)
(*    v |-> sequence of rows of values]; the same global number may occur     *)
(* twice in row or col (a face matrix of functions both sides share).         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Functions
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
SetOf(q) == {q[i] : i \in 1..Len(q)}
Zero(m, n) == [i \in 0..(m - 1) |-> [j \in 0..(n - 1) |-> 0]]
(* one local matrix added to A, row by row *)
RECURSIVE RowAdd(_, _, _, _), Add(_, _, _)
RowAdd(row, cols, vals, j) == IF j > Len(cols) THEN row ELSE RowAdd([row EXCEPT ![cols[j]] = @ + vals[j]], cols, vals, j + 1)
Add(A, l, i) == IF i > Len(l.row) THEN A ELSE Add([A EXCEPT ![l.row[i]] = RowAdd(@, l.col, l.v[i], 1)], l, i + 1)
(* the sum of a sequence of local matrices *)
Total(m, n, ls) == FoldLeft(LAMBDA A, l : Add(A, l, 1), Zero(m, n), ls)
(* vectors: [row |-> .., v |-> sequence of values] *)
TotalV(n, ls) == FoldLeft(LAMBDA b, l : RowAdd(b, l.row, l.v, 1), [i \in 0..(n - 1) |-> 0], ls)

(* Coupling: the columns a row can have, and how many of them a process owns. *)
(* Els: set of <<rows, cols>> (sets of DoFs) of the element matrices,          *)
(* Fas: the same for face matrices; unk[d]: unknown of a row or column DoF;    *)
(* Coup: set of pairs of unknowns coupled through faces.                       *)
Columns(d, Els, Fas, ru, cu, Coup) ==
   UNION ({x[2] : x \in {y \in Els : d \in y[1]}} \cup
          {{k \in x[2] : <<ru[d], cu[k]>> \in Coup} : x \in {y \in Fas : d \in y[1]}})

(******************************************************************************)
(* Part 2: the assembly protocol.  A line of elements 1..NE, element e has the *)
(* functions {e} and shares function NE+f with its neighbour over face f (so   *)
(* rows owned by another process occur); every process adds the local matrices *)
(* it is responsible for in any order, contributions to rows of another        *)
(* process travel when the assembly is finished.                               *)
CONSTANTS NE, NP, Values, Rounds, OwnerOnly
VARIABLES ow, val, todo, A, stash, pc, round, done
vars == <<ow, val, todo, A, stash, pc, round, done>>
Els == 1..NE
Fas == 1..(NE - 1)
Locals == ({"e"} \X Els) \cup ({"f"} \X Fas)
P == 0..(NP - 1)
(* who knows / owns what: the left element of a face owns it *)
Owner(o, l) == o[l[2]]
KnowsFace(o, p, f) == o[f] = p \/ o[f + 1] = p
Mine(o, p) == {l \in Locals : IF l[1] = "e" THEN o[l[2]] = p ELSE IF OwnerOnly THEN o[l[2]] = p ELSE KnowsFace(o, p, l[2])}
Dofs == 1..(2 * NE - 1)
RowOwner(o, d) == IF d <= NE THEN o[d] ELSE o[d - NE]
DofsOf(e) == {e} \cup (IF e > 1 THEN {NE + e - 1} ELSE {}) \cup (IF e < NE THEN {NE + e} ELSE {})
DofsOfLocal(l) == IF l[1] = "e" THEN DofsOf(l[2]) ELSE DofsOf(l[2]) \cup DofsOf(l[2] + 1)
Expected == [d \in Dofs |-> LET q == SetToSeq({l \in Locals : d \in DofsOfLocal(l)}) IN FoldLeft(LAMBDA s, l : s + val[l], 0, q)]
Init == /\ ow \in {o \in [Els -> P] : \A p \in P : p > 0 => \A e \in Els : o[e] = p => \E g \in 1..e : o[g] = p - 1}
        /\ val \in {[l \in Locals |-> IF l[1] = "e" THEN v ELSE 2 * v] : v \in Values}
        /\ todo = [p \in P |-> {}] /\ A = [d \in Dofs |-> 0] /\ stash = [p \in P |-> [d \in Dofs |-> 0]]
        /\ pc = [p \in P |-> "idle"] /\ round = 0 /\ done = TRUE
(* local matrices may change between assemblies *)
Change(l, v) == /\ round < Rounds /\ \A p \in P : pc[p] = "idle" /\ v # val[l]
                /\ val' = [val EXCEPT ![l] = v] /\ done' = FALSE /\ UNCHANGED <<ow, todo, A, stash, pc, round>>
Begin == /\ round < Rounds /\ \A p \in P : pc[p] = "idle"
         /\ pc' = [p \in P |-> "zero"] /\ round' = round + 1 /\ done' = FALSE /\ UNCHANGED <<ow, val, todo, A, stash>>
ZeroOwn(p) == /\ pc[p] = "zero" /\ pc' = [pc EXCEPT ![p] = "add"] /\ todo' = [todo EXCEPT ![p] = Mine(ow, p)]
              /\ A' = [d \in Dofs |-> IF RowOwner(ow, d) = p THEN 0 ELSE A[d]]
              /\ UNCHANGED <<ow, val, stash, round, done>>
AddOne(p) == /\ pc[p] = "add" /\ \E l \in todo[p] :
               /\ todo' = [todo EXCEPT ![p] = @ \ {l}]
               /\ A' = [d \in Dofs |-> IF d \in DofsOfLocal(l) /\ RowOwner(ow, d) = p THEN A[d] + val[l] ELSE A[d]]
               /\ stash' = [stash EXCEPT ![p] = [d \in Dofs |-> IF d \in DofsOfLocal(l) /\ RowOwner(ow, d) # p THEN @[d] + val[l] ELSE @[d]]]
             /\ UNCHANGED <<ow, val, pc, round, done>>
(* collective end of the assembly *)
Finish == /\ \A p \in P : pc[p] = "add" /\ todo[p] = {}
          /\ A' = [d \in Dofs |-> FoldLeft(LAMBDA s, p : s + stash[p][d], A[d], SetToSeq(P))]
          /\ stash' = [p \in P |-> [d \in Dofs |-> 0]]
          /\ pc' = [p \in P |-> "idle"] /\ done' = TRUE /\ UNCHANGED <<ow, val, todo, round>>
Next == (\E l \in Locals, v \in Values : Change(l, v)) \/ Begin \/ (\E p \in P : ZeroOwn(p) \/ AddOne(p)) \/ Finish
Spec == Init /\ [][Next]_vars
AssembledIsSum == (done /\ round > 0) => A = Expected
=============================================================================
