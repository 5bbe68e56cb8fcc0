----------------------------- MODULE RungeKutta -----------------------------
(* C28: which coefficients make an explicit Runge-Kutta scheme of order p.     *)
(* Order conditions are sums over rooted trees; a tree with n nodes is given   *)
(* by the parents of nodes 2..n, each smaller than the node (every rooted tree *)
(* occurs at least once).  Fractions are compared modulo enough primes.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt
VARIABLE done

Primes == <<46337, 46327, 46309, 46307, 46301, 46279, 46273, 46271, 46261, 46237, 46229, 46219, 46199, 46187, 46183, 46181, 46171, 46153, 46147, 46141, 46133, 46103, 46099, 46093>>
RECURSIVE PowMod(_, _, _)
PowMod(x, k, q) == IF k = 0 THEN 1 ELSE LET h == PowMod(x, k \div 2, q)  s == (h * h) % q IN IF k % 2 = 1 THEN (s * x) % q ELSE s
(* a fraction <<n, d>> as a number modulo a prime that does not divide d *)
Residue(f, q) == ((f[1] % q) * PowMod(f[2] % q, q - 2, q)) % q
Usable(fs, q) == \A f \in fs : f[2] % q # 0

(* trees *)
Trees(n) == IF n = 1 THEN {<<0>>} ELSE {t \in [1..n -> 0..(n - 1)] : t[1] = 0 /\ \A i \in 2..n : t[i] \in 1..(i - 1)}
Children(t, i) == {k \in (i + 1)..Len(t) : t[k] = i}
RECURSIVE Size(_, _)
Size(t, i) == 1 + FoldSet(LAMBDA k, s : s + Size(t, k), 0, Children(t, i))
Density(t) == FoldLeft(LAMBDA s, i : s * Size(t, i), 1, [i \in 1..Len(t) |-> i])

(* everything modulo q: A[i][j] for j < i, b and u as sequences *)
RowTimes(A, i, u, q) == FoldLeft(LAMBDA s, j : (s + A[i][j] * u[j]) % q, 0, [j \in 1..(i - 1) |-> j])
RECURSIVE Inner(_, _, _, _, _)
Inner(A, t, k, s, q) ==     \* per stage: product over the children of node k of the sums over their stages
   TLCEval(FoldSet(LAMBDA ch, u : LET w == Inner(A, t, ch, s, q) IN [i \in 1..s |-> (u[i] * RowTimes(A, i, w, q)) % q], [i \in 1..s |-> 1], Children(t, k)))
Weight(A, b, t, s, q) == LET u == Inner(A, t, 1, s, q) IN FoldLeft(LAMBDA x, i : (x + b[i] * u[i]) % q, 0, [i \in 1..s |-> i])
ModA(A, s, q) == TLCEval([i \in 1..s |-> [j \in 1..(i - 1) |-> Residue(A[i][j], q)]])
ModB(b, s, q) == TLCEval([i \in 1..s |-> Residue(b[i], q)])
Fractions(A, b, s) == {A[i][j] : <<i, j>> \in {x \in (1..s) \X (1..s) : x[2] < x[1]}} \cup {b[i] : i \in 1..s}
(* the sum over tree t is 1/density (or vanishes), for all primes *)
TreeSum(A, b, t, s, q) == Weight(ModA(A, s, q), ModB(b, s, q), t, s, q)
SumIs(A, b, t, s, target) == \A k \in 1..Len(Primes) : LET q == Primes[k] IN Usable(Fractions(A, b, s), q) => TreeSum(A, b, t, s, q) = target[k]
OneOver(n) == [k \in 1..Len(Primes) |-> PowMod(n, Primes[k] - 2, Primes[k])]
Zero == [k \in 1..Len(Primes) |-> 0]
Enough(A, b, s) == Cardinality({k \in 1..Len(Primes) : Usable(Fractions(A, b, s), Primes[k])}) >= 20
OrderAtLeast(A, b, s, p) == Enough(A, b, s) /\ \A n \in 1..p : \A t \in Trees(n) : SumIs(A, b, t, s, OneOver(Density(t)))
(* the difference with an embedded scheme: does not see what a scheme of order p gets right, sees something at order p + 1 *)
ErrorOrder(A, e, s, p) == /\ Enough(A, e, s)
                          /\ \A n \in 1..p : \A t \in Trees(n) : SumIs(A, e, t, s, Zero)
                          /\ \E t \in Trees(p + 1) : ~SumIs(A, e, t, s, Zero)
(* times of stages are row sums *)
RowSum(A, i, q) == FoldLeft(LAMBDA x, j : (x + Residue(A[i][j], q)) % q, 0, [j \in 1..(i - 1) |-> j])
TimesOK(A, c, s) == \A k \in 1..Len(Primes) : LET q == Primes[k] IN Usable(Fractions(A, c, s), q) => \A i \in 1..s : Residue(c[i], q) = RowSum(A, i, q)

(* fractions with small denominators, exactly *)
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN (IF x < 0 THEN -x ELSE x) ELSE Gcd(y, x % (IF y < 0 THEN -y ELSE y))
Reduce(f) == LET g == Gcd(f[1], f[2]) IN IF f[1] = 0 THEN <<0, 1>> ELSE <<f[1] \div g, f[2] \div g>>
Plus(f, g) == Reduce(<<f[1] * g[2] + g[1] * f[2], f[2] * g[2]>>)
Times(f, g) == Reduce(<<f[1] * g[1], f[2] * g[2]>>)
Minus(f) == <<-f[1], f[2]>>
(* total variation diminishing under the step limit of forward Euler: every stage is a convex combination of forward *)
(* Euler steps of full length.  With K the rows of A and b, and M the inverse of I + A: K M >= 0 and its row sums <= 1 *)
RECURSIVE Entry(_, _, _, _)
Entry(K, A, i, j) ==    \* (K (I+A)^-1)[j] for row K: x (I+A) = K, solved from the last column
   Plus(K[j], Minus(FoldLeft(LAMBDA s, m : Plus(s, Times(Entry(K, A, i, m), A[m][j])), <<0, 1>>, [m \in 1..(i - j) |-> j + m])))
RowOK(K, A, n) == /\ \A j \in 1..n : Entry(K, A, n, j)[1] >= 0
                  /\ LET t == FoldLeft(LAMBDA s, j : Plus(s, Entry(K, A, n, j)), <<0, 1>>, [j \in 1..n |-> j]) IN t[1] <= t[2]
Contractive(A, b, s) == /\ \A i \in 2..s : RowOK(A[i], A, i - 1)
                        /\ RowOK(b, A, s)

(* looking a scheme up among those offered (records with o, s, tvd): an exact match, else one that differs in tvd only *)
Found(offered, o, s, tvd) ==
   LET same == {r \in offered : r.o = o /\ r.s = s}
       exact == {r \in same : r.tvd = tvd} IN
   IF exact # {} THEN exact ELSE same

(* ---- the conditions recognise known schemes and their order, and no more ---- *)
F(n, d) == <<n, d>>
Euler == [A |-> << <<>> >>, b |-> <<F(1, 1)>>, s |-> 1, p |-> 1, tvd |-> TRUE]
Mid   == [A |-> << <<>>, <<F(1, 2)>> >>, b |-> <<F(0, 1), F(1, 1)>>, s |-> 2, p |-> 2, tvd |-> FALSE]
Heun  == [A |-> << <<>>, <<F(1, 1)>> >>, b |-> <<F(1, 2), F(1, 2)>>, s |-> 2, p |-> 2, tvd |-> TRUE]
SO3   == [A |-> << <<>>, <<F(1, 1)>>, <<F(1, 4), F(1, 4)>> >>, b |-> <<F(1, 6), F(1, 6), F(2, 3)>>, s |-> 3, p |-> 3, tvd |-> TRUE]
Kutta == [A |-> << <<>>, <<F(1, 2)>>, <<F(-1, 1), F(2, 1)>> >>, b |-> <<F(1, 6), F(2, 3), F(1, 6)>>, s |-> 3, p |-> 3, tvd |-> FALSE]
RK4   == [A |-> << <<>>, <<F(1, 2)>>, <<F(0, 1), F(1, 2)>>, <<F(0, 1), F(0, 1), F(1, 1)>> >>, b |-> <<F(1, 6), F(1, 3), F(1, 3), F(1, 6)>>, s |-> 4, p |-> 4, tvd |-> FALSE]
Known == {Euler, Mid, Heun, SO3, Kutta, RK4}
KnownOK == \A m \in Known : /\ OrderAtLeast(m.A, m.b, m.s, m.p) /\ ~OrderAtLeast(m.A, m.b, m.s, m.p + 1)
                            /\ Contractive(m.A, m.b, m.s) <=> m.tvd
(* a chain asks for 1/n!, a star for the quadrature of t^(n-1) *)
Fact(n) == FoldLeft(LAMBDA s, i : s * i, 1, [i \in 1..n |-> i])
TreesOK == \A n \in 1..5 : /\ Cardinality(Trees(n)) = Fact(n - 1)
                           /\ Density([i \in 1..n |-> i - 1]) = Fact(n)
                           /\ Density([i \in 1..n |-> IF i = 1 THEN 0 ELSE 1]) = n
Init == done = FALSE
Next == ~done /\ done' = TRUE
Spec == Init /\ [][Next]_done
Theorems == done => KnownOK /\ TreesOK
=============================================================================
