--------------------------- MODULE TimeLoopTrace ---------------------------
(* C18: recorded runs of the time loop. Times are relative to the interval, in units of 2^-20 of it.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES c, p, ok
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)
One == 1048576
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
RunOK(e, o) ==
   LET n == Len(o.times)  F == e.f IN
   /\ n > 0 /\ Near(o.times[n], One, 1)                                             \* ends at the end
   /\ \A i \in 1..n : LET d == o.times[i] - (IF i = 1 THEN 0 ELSE o.times[i - 1]) IN d > -1 /\ d <= e.dt   \* no step too large
   /\ Len(o.frames) = F + 1 /\ o.frames[1] = 0
   /\ \A j \in 1..F : Near(o.frames[j + 1] * F, j * One, 2 * F)                     \* one frame per output time, in order
   /\ \A j \in 1..F : \E i \in 1..n : o.times[i] = o.frames[j + 1]                  \* a frame shows a computed state
   /\ (e.tec = 1) => (Len(o.tec) = F + 1 /\ \A j \in 0..F : F = 0 \/ Near(o.tec[j + 1] * F, j * 4096, 2 * F))
TInit == c \in 1..K /\ p = 1 /\ ok = TRUE
TNext == /\ c <= Len(Cases)
         /\ IF p > Len(Cases[c].ev) THEN c' = c + K /\ p' = 1 /\ ok' = TRUE
            ELSE LET e == Cases[c].ev[p] IN c' = c /\ p' = p + 1 /\ ok' = \A R \in DOMAIN e.r : RunOK(e, e.r[R])
TSpec == TInit /\ [][TNext]_<<c, p, ok>>
TraceOK == ok
=============================================================================
