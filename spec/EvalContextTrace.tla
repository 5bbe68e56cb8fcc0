-------------------------- MODULE EvalContextTrace ---------------------------
(* C14: recorded selections and answers of real contexts.  A case has a table of selections with the values  *)
(* computed directly from the elements and faces (times 1e4); an answer names its entry of the table, and    *)
(* the entry has to be the one of the current selection.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, ctx
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
M == INSTANCE EvalContext WITH Elements <- {}, Points <- {}, Rules <- {}, RulePoints <- {}, Trans <- {}, Unknowns <- {}, Quantities <- {}, Depends <- <<>>, MaxOps <- 0,
                               sel <- <<>>, cache <- <<>>, clean <- TRUE, hist <- <<>>
Near(a, b) == a - b \in {0 - 1, 0, 1}
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i])
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
U(u) == IF u < 0 THEN 1 ELSE u + 1
Fun(R, s, u) == R.u[U(u)].t[M!Eff(s, U(u) - 1) + 1]
Sol(R, s) == Cat([u \in DOMAIN R.u |-> R.u[u].t[M!Eff(s, u - 1) + 1].s])
SolD(R, s) == Cat([u \in DOMAIN R.u |-> R.u[u].t[M!Eff(s, u - 1) + 1].sd])
ElementAnswer(R, s, w, u) ==
   CASE w = "v" -> Fun(R, s, u).v
     [] w = "d" -> Fun(R, s, u).d
     [] w = "s" -> Sol(R, s)
     [] w = "sd" -> SolD(R, s)
     [] w = "mat" -> <<R.tot, R.tot, 0>>
     [] w = "vec" -> <<R.tot, 1, 0>>
     [] OTHER -> R[w]
Side(R, sd) == IF sd = 1 THEN R.r ELSE R.l
Rows(R) == IF R.in THEN R.l.tot + R.r.tot ELSE R.l.tot
Dim(R) == Len(R.x)
FaceFun(R, s, w, u, sd) ==
   IF sd >= 0 THEN (IF w = "v" THEN Fun(Side(R, sd), s, u).v ELSE Fun(Side(R, sd), s, u).d)
   ELSE LET l == Fun(R.l, s, u)
            r == IF R.in THEN Fun(R.r, s, u) ELSE [v |-> <<>>, d |-> <<>>]
        IN IF w = "v" THEN l.v \o r.v ELSE l.d \o r.d
Normals(R, s, w, u, sd) ==
   LET all == R.u[U(u)][M!Eff(s, U(u) - 1) + 1][IF w = "bn" THEN 1 ELSE 2]
       n == Dim(R) * R.l.u[U(u)].n
   IN IF sd < 0 THEN all ELSE IF sd = 0 THEN SubSeq(all, 1, n) ELSE SubSeq(all, n + 1, Len(all))
FaceAnswer(R, s, w, u, sd) ==
   CASE w \in {"v", "d"} -> FaceFun(R, s, w, u, sd)
     [] w \in {"bn", "bun"} -> Normals(R, s, w, u, sd)
     [] w = "s" -> Sol(Side(R, sd), s)
     [] w = "sd" -> SolD(Side(R, sd), s)
     [] w = "ll" -> <<R.l.tot, R.l.tot, 0>>
     [] w = "lr" -> <<R.l.tot, R.r.tot, 0>>
     [] w = "rl" -> <<R.r.tot, R.l.tot, 0>>
     [] w = "rr" -> <<R.r.tot, R.r.tot, 0>>
     [] w = "vec" -> <<Rows(R), 1, 0>>
     [] w = "sv" -> <<Side(R, sd).tot, 1, 0>>
     [] w = "el" -> (CASE u % 3 = 0 -> Side(R, sd).x [] u % 3 = 1 -> Side(R, sd).jac [] OTHER -> Side(R, sd).xi)
     [] OTHER -> R[w]
Blocks(R) == IF R.in THEN << <<R.l.tot, R.l.tot, 0>>, <<R.l.tot, R.r.tot, 0>>, <<R.r.tot, R.l.tot, 0>>, <<R.r.tot, R.r.tot, 0>> >> ELSE << <<R.l.tot, R.l.tot, 0>> >>
AnswerOK(e, s) ==
   LET R == Cases[c].ref[e.r] IN
   /\ R.c = e.c /\ R.k = s.el \o s.pt
   /\ IF e.c = "F" /\ e.w = "mat" THEN e.val = Blocks(R.v)
      ELSE IF e.c = "E" THEN Same(e.val, ElementAnswer(R.v, s, e.w, e.u)) ELSE Same(e.val, FaceAnswer(R.v, s, e.w, e.u, e.sd))
TInit == c \in 1..K /\ p = 0 /\ ok = TRUE /\ ctx = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p = 0 THEN p' = 1 /\ c' = c /\ ok' = TRUE /\ ctx' = [k \in 0..3 |-> M!Start]
            ELSE IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 0 /\ ok' = TRUE /\ ctx' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ CASE e.op = "new" -> ctx' = [ctx EXCEPT ![e.k] = M!Start] /\ ok' = TRUE
                      [] e.op = "get" -> ctx' = ctx /\ ok' = (M!Ready(ctx[e.k]) /\ AnswerOK(e, ctx[e.k]))
                      [] e.op = "error" -> ctx' = ctx /\ ok' = FALSE
                      (* a point given to a face does not end the use of its rule *)
                      [] OTHER -> ctx' = [ctx EXCEPT ![e.k] = LET n == M!Apply(ctx[e.k], e) IN IF e.c = "F" /\ e.op = "pt" THEN [n EXCEPT !.rule = ctx[e.k].rule] ELSE n]
                                  /\ ok' = M!Allowed(ctx[e.k], e)
TSpec == TInit /\ [][TNext]_<<c, p, ok, ctx>>
TraceOK == ok
==============================================================================
