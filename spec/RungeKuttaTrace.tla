-------------------------- MODULE RungeKuttaTrace ---------------------------
(* C28: the schemes the library offers.  Events: "rule" (what a lookup gave,   *)
(* with all coefficients as fractions) and "all" (lookups over a whole range). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, p, ok
M == INSTANCE RungeKutta WITH done <- FALSE
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
S(q) == {q[i] : i \in 1..Len(q)}
RuleOK(e) == /\ e.s >= 1 /\ Len(e.A) = e.s /\ Len(e.b) = e.s /\ Len(e.c) = e.s
             /\ M!TimesOK(e.A, e.c, e.s)
             /\ M!OrderAtLeast(e.A, e.b, e.s, e.o)
             /\ e.tvd => M!Contractive(e.A, e.b, e.s)
             /\ e.est => Len(e.e) = e.s /\ M!ErrorOrder(e.A, e.e, e.s, e.o - 1)
(* the schemes that have to be there, and every lookup *)
Needed == {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<3, 4>>, <<4, 4>>, <<5, 7>>}
AllOK(e) == /\ \A n \in Needed : \E r \in S(e.offered) : r.o = n[1] /\ r.s = n[2]
            /\ {r.tvd : r \in {r \in S(e.offered) : r.o = 2}} = BOOLEAN
            /\ \E r \in S(e.offered) : r.o = 3 /\ r.tvd
            /\ {<<3, 4>>, <<5, 7>>} \subseteq {<<r.o, r.s>> : r \in {r \in S(e.offered) : r.est}}
            /\ \A l \in S(e.look) :
                 LET f == {[o |-> r.o, s |-> r.s, tvd |-> r.tvd] : r \in S(e.offered)} IN
                 IF M!Found(f, l.o, l.s, l.tvd) = {} THEN l.got = <<>>
                 ELSE Len(l.got) = 1 /\ l.got[1] \in M!Found(f, l.o, l.s, l.tvd)
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE LET e == Cases[c].ev[p] IN p' = p + 1 /\ c' = c /\ ok' = (IF e.k = "rule" THEN RuleOK(e) ELSE AllOK(e))
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
