----------------------------- MODULE Projection -----------------------------
(* C30: what the default initial solution and the default error norms mean.    *)
(* Positions and values are in units of 1/4096, rounded.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
Abs(x) == IF x < 0 THEN -x ELSE x
Unit == 4096
Indices(n) == [i \in 1..n |-> i]
(* a polynomial is a sequence of terms <<coefficient, exponents>> *)
Term(t, x) == FoldLeft(LAMBDA s, d : FoldLeft(LAMBDA v, i : (v * x[d]) \div Unit, s, Indices(t[2][d])), t[1] * Unit, Indices(Len(x)))
Value(q, x) == FoldLeft(LAMBDA s, t : s + Term(t, x), 0, q)
Degree(t) == FoldLeft(LAMBDA s, k : s + k, 0, t[2])
Bound(x) == 1 + FoldLeft(LAMBDA s, v : IF Abs(v) > s THEN Abs(v) ELSE s, 0, x) \div Unit
Pow(b, k) == FoldLeft(LAMBDA s, i : s * b, 1, Indices(k))
(* positions are off by half a unit, every product by one *)
Tolerance(q, x) == 2 + FoldLeft(LAMBDA s, t : s + (Abs(t[1]) + 1) * (Degree(t) + 1) * Pow(Bound(x), Degree(t)), 0, q)
(* the initial solution is the polynomial itself: plus the time and twice the order of the derivative that is asked for *)
Reproduces(q, x, u, t, o) == Abs(u - (Value(q, x) + 64 * t + 2 * o * Unit)) <= Tolerance(q, x)
(* a box lo..hi in eighths; the part beyond plane (first coordinate) *)
Beyond(lo, hi, plane) == LET a == IF plane > lo[1] THEN plane ELSE lo[1]  w == IF hi[1] > a THEN hi[1] - a ELSE 0
                         IN FoldLeft(LAMBDA s, d : s * (hi[d] - lo[d]), w, [i \in 1..(Len(lo) - 1) |-> i + 1])
Squares(delta) == FoldLeft(LAMBDA s, x : s + x * x, 0, delta)
(* total error: the square, in units of 1/4096; 8^3 divides 4096 *)
TotalOK(e2, lo, hi, plane, delta) == Abs(e2 - Squares(delta) * Beyond(lo, hi, plane) * (Unit \div Pow(8, Len(lo)))) <= 2
MaxOK(m, lo, hi, plane, delta) == /\ Len(m) = Len(delta)
                                  /\ \A u \in 1..Len(m) : Abs(m[u] - (IF Beyond(lo, hi, plane) > 0 THEN 1024 * Abs(delta[u]) ELSE 0)) <= 1
(* ---- model: norms are reduced over processes to one of them and sent to all ---- *)
CONSTANTS NE, NP, MaxV
VARIABLES owner, val, sum, top, phase
vars == <<owner, val, sum, top, phase>>
Procs == 1..NP
Top(S) == CHOOSE x \in S : \A y \in S : y <= x
SumOver(S, f) == FoldSet(LAMBDA e, s : s + f[e], 0, S)
Init == /\ owner \in [1..NE -> Procs] /\ val \in [1..NE -> 0..MaxV] /\ phase = "local"
        /\ sum = [p \in Procs |-> 0] /\ top = [p \in Procs |-> 0]
Local == /\ phase = "local" /\ phase' = "reduce" /\ UNCHANGED <<owner, val>>
         /\ sum' = [p \in Procs |-> SumOver({e \in 1..NE : owner[e] = p}, val)]
         /\ top' = [p \in Procs |-> Top({0} \cup {val[e] : e \in {e \in 1..NE : owner[e] = p}})]
Reduce == /\ phase = "reduce" /\ phase' = "send" /\ UNCHANGED <<owner, val>>
          /\ sum' = [sum EXCEPT ![1] = SumOver(Procs, sum)] /\ top' = [top EXCEPT ![1] = Top({top[p] : p \in Procs})]
Send == /\ phase = "send" /\ phase' = "done" /\ UNCHANGED <<owner, val>>
        /\ sum' = [p \in Procs |-> sum[1]] /\ top' = [p \in Procs |-> top[1]]
Next == Local \/ Reduce \/ Send
Spec == Init /\ [][Next]_vars
SameForAll == phase = "done" => \A p \in Procs : sum[p] = SumOver(1..NE, val) /\ top[p] = Top({val[e] : e \in 1..NE})
(* the fixed point value of a polynomial is as exact as claimed: (a + b x)^2 expanded and factored *)
FixedPoint == \A a, b \in -2..2 : \A i \in -6..6 :
   LET x == <<i * 1365>>  q == <<<<a * a, <<0>>>>, <<2 * a * b, <<1>>>>, <<b * b, <<2>>>>>>
       l == Value(<<<<a, <<0>>>>, <<b, <<1>>>>>>, x)
   IN Abs(Value(q, x) - (l * l) \div Unit) <= Tolerance(q, x)
=============================================================================
