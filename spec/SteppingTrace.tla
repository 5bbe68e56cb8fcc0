--------------------------- MODULE SteppingTrace ---------------------------
(* C04, C18: recorded time stepping on one or several processes. Every process records the coefficients of  *)
(* all elements it knows after every operation: owned elements must have exactly the coefficients of the    *)
(* single-process specification, ghosts those of their owner for every vector that has been synchronised.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, U, lv, fresh
A == INSTANCE Stepping
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
Obs(m, W, fr, e) ==
   /\ \A R \in 1..Len(e.r) : \A i \in 1..Len(e.r[R].v) :
        LET x == e.r[R].v[i] IN x[1] \in DOMAIN m /\ Len(x[3]) = Len(W) /\
          \A v \in DOMAIN W : (x[2] = 1 \/ v \in fr) => x[3][v] = W[v][x[1]]
   /\ LET own == {<<R, i>> \in (1..Len(e.r)) \X (1..Len(m)) : i <= Len(e.r[R].v) /\ e.r[R].v[i][2] = 1}
      IN Cardinality(own) = Len(m) /\ {e.r[o[1]].v[o[2]][1] : o \in own} = DOMAIN m
All(e, F(_)) == \A R \in 1..Len(e.r) : F(e.r[R])
SetOwn(m, v, s) == [k \in DOMAIN m |-> [i \in 1..m[k].n |-> 64 * (((m[k].id * 31 + s * 17 + (i - 1) * 5) % 23) - 11)]]
FirstAccept(s) == LET acc == {i \in DOMAIN s : s[i] # 0} IN IF acc = {} THEN Len(s) ELSE CHOOSE i \in acc : \A j \in acc : i <= j
Drop(s, n) == SubSeq(s, n + 1, Len(s))
(* result: [U, lv, fresh, ok] *)
Apply(C, V, L, fr, e) ==
   LET m == C.m  x == e.x  R(W, f, good) == [U |-> W, lv |-> L, fresh |-> f, ok |-> good]
       Put(v, w) == R([V EXCEPT ![v + 1] = w], fr \cup {v + 1}, TRUE)
   IN CASE e.c = "setv" -> R([V EXCEPT ![x[1] + 1] = SetOwn(m, x[1], x[2])], fr \ {x[1] + 1}, TRUE)
        [] e.c = "sync" -> R(V, fr \cup {x[1] + 1}, TRUE)
        [] e.c = "init" -> Put(x[1], A!Mass(m, A!Initial(m, x[2], x[3])))
        [] e.c = "iinit" -> Put(x[1], A!Initial(m, x[2], x[3]))
        [] e.c = "mass" -> Put(x[1], A!Mass(m, V[x[1] + 1]))
        [] e.c = "rhs" -> Put(x[2], A!RightHandSide(m, V[x[1] + 1], x[3]))
        [] e.c = "der" -> Put(x[2], A!Mass(m, A!RightHandSide(m, V[x[1] + 1], x[3])))
        [] e.c \in {"rhsl", "derl"} ->
             LET n == x[3]  vs == [i \in 1..n |-> x[3 + i] + 1]  q == [i \in 1..n |-> 64 * x[3 + n + i]]
                 w == TLCEval(A!RightHandSide(m, TLCEval(A!Combination(m, V, vs, q)), x[2]))
             IN Put(x[1], IF e.c = "rhsl" THEN w ELSE A!Mass(m, w))
        [] e.c = "scale" -> Put(x[1], [k \in DOMAIN m |-> [i \in 1..m[k].n |-> x[2] * V[x[1] + 1][k][i]]])
        [] e.c = "axpy" -> Put(x[1], [k \in DOMAIN m |-> [i \in 1..m[k].n |-> V[x[1] + 1][k][i] + x[3] * V[x[2] + 1][k][i]]])
        [] e.c = "step" -> R(A!Step(m, C.tab, V, x[1], x[2]), 1..Len(V), All(e, LAMBDA o : o.t = x[1] + x[2]))
        [] e.c = "stepa" ->
             (* the accepted step size is the decision of the code; rejected attempts leave no trace *)
             LET dt == e.r[1].t - x[1]
             IN IF dt <= 0 \/ dt > x[2] THEN R(V, fr, FALSE) ELSE
                R(A!Step(m, C.tab, V, x[1], dt), 1..Len(V), All(e, LAMBDA o : o.t = x[1] + dt /\ o.used = FirstAccept(Drop(x, 3))))
        [] e.c = "toterr" -> R(V, fr, All(e, LAMBDA o : o.e2 = A!ErrorSquared(m, V[x[1] + 1], x[2])))
        [] e.c = "maxerr" -> R(V, fr, All(e, LAMBDA o : \A u \in DOMAIN o.m : o.m[u] = A!MaxError(m, V[x[1] + 1], x[2], u)))
        [] e.c = "est" -> R(V, fr, LET lo == A!NormBelow(m, V[1]) IN
                            All(e, LAMBDA o : o.e2 = A!EstimateMod(m, C.tab, V) /\ lo - 1 <= o.n10 /\ o.n10 <= lo + Len(m) + 1))
        [] e.c = "copies" -> [U |-> V, lv |-> V[x[1] + 1], fresh |-> fr, ok |-> TRUE]
        [] e.c = "copied" -> R([V EXCEPT ![x[1] + 1] = L], fr \ {x[1] + 1}, TRUE)
Start(C) == [v \in 1..(C.tab.s + 1) |-> [k \in DOMAIN C.m |-> [i \in 1..C.m[k].n |-> 0]]]
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ U = <<>> /\ lv = <<>> /\ fresh = {}
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ U' = <<>> /\ lv' = <<>> /\ fresh' = {}
            ELSE LET C == Cases[c]  e == C.ev[p]
                     res == TLCEval(Apply(C, IF p = 1 THEN Start(C) ELSE U, lv, fresh, e))
                 IN /\ c' = c /\ p' = p + 1 /\ U' = res.U /\ lv' = res.lv /\ fresh' = res.fresh
                    /\ ok' = (res.ok /\ (e.o = 0 \/ Obs(C.m, res.U, res.fresh, e)))
TSpec == TInit /\ [][TNext]_<<c, p, ok, U, lv, fresh>>
TraceOK == ok
=============================================================================
