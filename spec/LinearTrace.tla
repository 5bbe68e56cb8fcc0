---------------------------- MODULE LinearTrace ----------------------------
(* C29: recorded operations of linear problems on one or several processes.  Owned elements must have exactly   *)
(* the coefficients of the undivided problem, ghosts those of their owner for every synchronised vector.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, U, fresh
A == INSTANCE LinearProblem WITH NE <- 1, NP <- 1, owner <- 0, todo <- 0, res <- 0, phase <- 0
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
Own(e, m) == LET own == {<<R, i>> \in (1..Len(e.r)) \X (1..Len(m)) : i <= Len(e.r[R].v) /\ e.r[R].v[i][2] = 1}
             IN Cardinality(own) = Len(m) /\ {e.r[o[1]].v[o[2]][1] : o \in own} = DOMAIN m
Obs(m, W, fr, e) ==
   /\ \A R \in 1..Len(e.r) : \A i \in 1..Len(e.r[R].v) :
        LET x == e.r[R].v[i] IN x[1] \in DOMAIN m /\ Len(x[3]) = Len(W) /\
          \A v \in DOMAIN W : (x[2] = 1 \/ v \in fr) => x[3][v] = W[v][x[1]]
   /\ Own(e, m)
SetOwn(m, s) == [k \in DOMAIN m |-> [i \in 1..m[k].n |-> 64 * (((m[k].id * 31 + s * 17 + (i - 1) * 5) % 23) - 11)]]
(* the solution as the owners have it; every ghost has the same *)
Solved(C, e) ==
   LET m == C.m
       sol == TLCEval([k \in DOMAIN m |-> LET R == CHOOSE R \in 1..Len(e.r) : \E i \in 1..Len(e.r[R].v) : e.r[R].v[i][1] = k /\ e.r[R].v[i][2] = 1
                                             i == CHOOSE i \in 1..Len(e.r[R].v) : e.r[R].v[i][1] = k IN e.r[R].v[i][3][1]])
   IN Own(e, m) /\ (\A k \in DOMAIN m : Len(sol[k]) = m[k].n)
      /\ (\A R \in 1..Len(e.r) : \A i \in 1..Len(e.r[R].v) : e.r[R].v[i][3][1] = sol[e.r[R].v[i][1]])
      /\ A!SteadyOK(m, sol, e.x[1], 1000000)
Apply(C, V, fr, e) ==
   LET m == C.m  x == e.x  R(W, f, good) == [U |-> W, fresh |-> f, ok |-> good]
       Put(v, w) == R([V EXCEPT ![v + 1] = w], fr \cup {v + 1}, TRUE)
       in == C.src % 2 = 1  bd == C.src >= 2
   IN CASE e.c = "setv" -> R([V EXCEPT ![x[1] + 1] = SetOwn(m, x[2])], fr \ {x[1] + 1}, TRUE)
        [] e.c = "sync" -> R(V, fr \cup {x[1] + 1}, TRUE)
        [] e.c \in {"mass", "prep"} -> IF e.c = "prep" THEN R(V, fr, TRUE) ELSE Put(x[1], A!MassSolve(m, V[x[1] + 1]))
        [] e.c = "mul" -> Put(x[2], A!Multiply(m, V[x[1] + 1], 0))
        [] e.c = "rhs" -> Put(x[2], A!RightHandSide(m, V[x[1] + 1], x[3], in, bd))
        [] e.c = "der" -> Put(x[2], A!MassSolve(m, A!RightHandSide(m, V[x[1] + 1], x[3], in, bd)))
        [] e.c \in {"rhsl", "derl", "mull"} ->
             LET n == x[3]  vs == [i \in 1..n |-> x[3 + i] + 1]  q == [i \in 1..n |-> x[3 + n + i]]
                 y == TLCEval(A!Combination(m, V, vs, q))
                 w == IF e.c = "mull" THEN A!Multiply(m, y, 0) ELSE TLCEval(A!RightHandSide(m, y, x[2], in, bd))
             IN Put(x[1], IF e.c = "derl" THEN A!MassSolve(m, w) ELSE w)
Start(C) == [v \in 1..C.nv |-> [k \in DOMAIN C.m |-> [i \in 1..C.m[k].n |-> 0]]]
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ U = <<>> /\ fresh = {}
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ U' = <<>> /\ fresh' = {}
            ELSE LET C == Cases[c]  e == C.ev[p] IN
                 IF e.c = "solve" THEN c' = c /\ p' = p + 1 /\ ok' = Solved(C, e) /\ UNCHANGED <<U, fresh>>
                 ELSE LET res == TLCEval(Apply(C, IF p = 1 THEN Start(C) ELSE U, fresh, e))
                      IN /\ c' = c /\ p' = p + 1 /\ U' = res.U /\ fresh' = res.fresh
                         /\ ok' = (res.ok /\ (e.o = 0 \/ Obs(C.m, res.U, res.fresh, e)))
TSpec == TInit /\ [][TNext]_<<c, p, ok, U, fresh>>
TraceOK == ok
=============================================================================
