------------------------------- MODULE Bloch -------------------------------
(* k-shifted periodic boundaries (DG-Max).  A solution satisfies               *)
(*      u(x + a) = e^{ik.a} u(x)   for every lattice vector a,                  *)
(* so a matrix A(k) is the matrix A(0) of the plain periodic problem with a     *)
(* phase on the entries that couple across the boundary.  Wave vectors here     *)
(* turn the phase by a whole number of quarters over each period: everything    *)
(* is exact in Gaussian integers.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
(* a Gaussian integer <<re, im>>; t quarter turns of the integer v *)
Turned(v, t) == LET r == t % 4 IN IF r = 0 THEN <<v, 0>> ELSE IF r = 1 THEN <<0, v>> ELSE IF r = 2 THEN <<-v, 0>> ELSE <<0, -v>>
Conj(z) == <<z[1], -z[2]>>
Mul(z, w) == <<z[1] * w[1] - z[2] * w[2], z[1] * w[2] + z[2] * w[1]>>
(* quarter turns for the lattice vector n (in periods) and wave vector q (in quarter turns per period) *)
RECURSIVE DotUpTo(_, _, _)
DotUpTo(q, n, d) == IF d = 0 THEN 0 ELSE q[d] * n[d] + DotUpTo(q, n, d - 1)
TurnsOf(q, n) == DotUpTo(q, n, Len(q))
(* test functions carry the conjugate: an entry of a row whose support is seen at x and a column whose     *)
(* support is seen at y (the same point) gets e^{ik(x - y)}                                                 *)

(******************************************************************************)
(* A ring of N cells: cell i meets cell i+1, and cell N-1 meets cell 0 across  *)
(* the boundary.  Rows are distributed; wave vectors are applied one after     *)
(* another; each process overwrites the boundary entries of its own rows.      *)
CONSTANTS N, NP, Wave, Applications, Accumulate, OwnRowsOnly
VARIABLES ow, flip, M, q, todo, busy, n
vars == <<ow, flip, M, q, todo, busy, n>>
Cells == 0..(N - 1)
P == 0..(NP - 1)
V(i, j) == IF i = j THEN 5 ELSE IF (i + 1) % N = j \/ (j + 1) % N = i THEN 1 + ((i + j) % 3) ELSE 0
(* the period that separates the views of row cell i and column cell j of their common face *)
Jump(i, j) == IF i = N - 1 /\ j = 0 THEN 1 ELSE IF i = 0 /\ j = N - 1 THEN -1 ELSE 0
Want(w) == [i \in Cells |-> [j \in Cells |-> Turned(V(i, j), w * Jump(i, j))]]
Boundary == {<<N - 1, 0>>, <<0, N - 1>>}
(* a face has a left and a right cell (flip says which); the shift stored with it is that of its left row *)
Left == IF flip THEN 0 ELSE N - 1
Right == IF flip THEN N - 1 ELSE 0
Init == /\ ow \in [Cells -> P] /\ flip \in BOOLEAN /\ M = Want(0) /\ q = 0 /\ todo = [p \in P |-> {}] /\ busy = FALSE /\ n = 0
Apply(w) == /\ ~busy /\ n < Applications /\ q' = w /\ busy' = TRUE /\ n' = n + 1
            /\ todo' = [p \in P |-> {b \in Boundary : IF OwnRowsOnly THEN ow[b[1]] = p ELSE ow[Left] = p}]
            /\ UNCHANGED <<ow, flip, M>>
Insert(p) == /\ busy /\ \E b \in todo[p] :
                /\ todo' = [todo EXCEPT ![p] = @ \ {b}]
                /\ LET shift == Jump(Left, Right)
                       t == IF b = <<Left, Right>> THEN q * shift ELSE -(q * shift)
                       base == IF Accumulate THEN M[b[1]][b[2]] ELSE <<V(b[1], b[2]), 0>>
                   IN \* rows of another process are not reached in time when only the left owner is responsible
                      M' = IF ow[b[1]] = p THEN [M EXCEPT ![b[1]][b[2]] = Mul(base, Turned(1, t))] ELSE M
             /\ UNCHANGED <<ow, flip, q, busy, n>>
Finish == /\ busy /\ \A p \in P : todo[p] = {} /\ busy' = FALSE /\ UNCHANGED <<ow, flip, M, q, todo, n>>
Next == (\E w \in Wave : Apply(w)) \/ (\E p \in P : Insert(p)) \/ Finish
Spec == Init /\ [][Next]_vars
(* whatever was applied before, the matrix is the one of the last wave vector *)
LastWaveOnly == ~busy => M = Want(q)
(* a symmetric problem stays Hermitian *)
Hermitian == ~busy => \A i, j \in Cells : M[i][j] = Conj(M[j][i])
(* once around the ring: the phases of the columns add up to the phase of one period *)
RECURSIVE Around(_)
Around(i) == IF i = N THEN <<1, 0>> ELSE Mul(M[i][(i + 1) % N], Around(i + 1))
RECURSIVE Around0(_)
Around0(i) == IF i = N THEN 1 ELSE V(i, (i + 1) % N) * Around0(i + 1)
BlochCondition == ~busy => Around(0) = Turned(Around0(0), q)
=============================================================================
