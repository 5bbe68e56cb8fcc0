--------------------------- MODULE SetRegistryTrace --------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok, g
R == INSTANCE SetRegistry WITH Unknowns <- {}, Places <- {}, Sets <- {}, MaxOps <- 0, reg <- <<>>, hist <- <<>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
Type == [def |-> 0, face |-> 1, edge |-> 2, node |-> 3]
After(e, h) ==
   CASE e.op = "new" -> [u \in 0..(Len(e.u) - 1) |-> R!Empty]
     [] e.op = "clear" -> R!Cleared(h)
     [] OTHER -> R!Apply(h, IF e.q < 0 THEN DOMAIN h ELSE {e.q}, IF e.op = "def" THEN <<0, 0>> ELSE <<Type[e.op], e.l>>, e.s)
Sum(s) == LET RECURSIVE T(_)
              T(i) == IF i = 0 THEN 0 ELSE s[i] + T(i - 1) IN T(Len(s))
ObsOK(e, h) ==
   /\ e.tot = Sum([i \in DOMAIN e.u |-> R!Count(h[i - 1])])
   /\ e.tl = Sum([i \in DOMAIN e.u |-> R!Inner(h[i - 1])])
   /\ \A k \in DOMAIN e.tv : e.tv[k] = e.tot
   /\ \A i \in DOMAIN e.u :
        LET r == h[i - 1]
            t == e.u[i]
            used == {x \in DOMAIN r : R!Size[r[x] + 1] > 0}
            Off(x) == IF x[1] = 0 THEN 0 ELSE t.o[x[1]][x[2] + 1]
        IN /\ t.n = R!Count(r) /\ Len(t.v) = t.n /\ t.i = R!Inner(r)
           /\ t.w = t.v
           /\ \A k \in DOMAIN t.sv : t.sv[k] = t.n
           /\ \A x \in used : /\ Off(x) + R!Size[r[x] + 1] <= t.n
                              /\ SubSeq(t.v, Off(x) + 1, Off(x) + R!Size[r[x] + 1]) = R!Tags(r[x])
           /\ \A x, y \in used : x = y \/ Off(x) + R!Size[r[x] + 1] <= Off(y) \/ Off(y) + R!Size[r[y] + 1] <= Off(x)
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE /\ g = <<>>
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE /\ g' = <<>>
            ELSE LET e == Cases[c].ev[p] IN
                 /\ p' = p + 1 /\ c' = c
                 /\ IF e.op = "error" THEN ok' = FALSE /\ g' = g
                    ELSE g' = After(e, g) /\ ok' = ObsOK(e, g')
TSpec == TInit /\ [][TNext]_<<c, p, ok, g>>
TraceOK == ok
=============================================================================
