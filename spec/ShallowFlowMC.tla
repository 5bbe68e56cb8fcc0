--------------------------- MODULE ShallowFlowMC ---------------------------
(* All pairs of small states over all kinds of faces; a ring of cells exchanging over its faces in any order.        *)
EXTENDS ShallowFlow
CONSTANTS A, U, Cells
VARIABLES l, r, n, ring, done, mass
Speeds == -U..U
States == {St(a, u, v) : a \in 1..A, u \in Speeds, v \in {-1, 0, 2}} \cup {St(0, 0, 0)}
Normals == {<<5, 0>>, <<-5, 0>>, <<0, 5>>, <<3, 4>>, <<-4, 3>>}
Start == [i \in 1..Cells |-> 1024 * (i * i + 3)]
Init == /\ l \in States /\ r \in States /\ n \in Normals /\ ring = Start /\ done = {} /\ mass = Sum(Start)
(* a face between cell i and the next: one loses what the other gains *)
Swap(i) == LET f == Hll(l, r, n)[1]  j == (i % Cells) + 1 IN
   /\ i \notin done /\ done' = done \cup {i}
   /\ ring' = [ring EXCEPT ![i] = @ - f, ![j] = @ + f]
   /\ UNCHANGED <<l, r, n, mass>>
Next == \E i \in 1..Cells : Swap(i)
Spec == Init /\ [][Next]_<<l, r, n, ring, done, mass>>
Consistent == Hll(l, l, n) = Exact(l, n) /\ Hll(r, r, n) = Exact(r, n)
Antisymmetric == \A i \in 1..3 : Near(Hll(l, r, n)[i], -Hll(r, l, Opposite(n))[i], 1)
Upwind == /\ (Speed(l, n) >= 5 * l.a /\ Speed(r, n) >= 5 * r.a) => Hll(l, r, n) = Exact(l, n)
          /\ (Speed(l, n) <= -5 * l.a /\ Speed(r, n) <= -5 * r.a) => Hll(l, r, n) = Exact(r, n)
Wall == n[1] * n[2] = 0 => Near(Hll(l, Mirror(l, n), n)[1], 0, 1)
Kept == Sum(ring) = mass
=============================================================================
