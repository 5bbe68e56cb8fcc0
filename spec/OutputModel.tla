---------------------------- MODULE OutputModel ----------------------------
(* All short histories of writing fields at times; the accepted ones are printed and replayed into the      *)
(* real writer.                                                                                             *)
EXTENDS OutputFiles, TLC, Json
CONSTANTS Times, Levels, Names, Kinds, MaxCalls, Show
VARIABLES calls, frames
vars == <<calls, frames>>
Init == calls = <<>> /\ frames = <<>>
Next == /\ Len(calls) < MaxCalls
        /\ \E k \in Kinds, n \in Names, t \in Times, l \in Levels :
             LET x == [k |-> k, n |-> n, t |-> t, l |-> l] IN
             /\ Allowed(frames, x)
             /\ calls' = Append(calls, x) /\ frames' = Put(frames, x)
Spec == Init /\ [][Next]_vars
Number == LET RECURSIVE N(_)
              N(i) == IF i = 0 THEN 0 ELSE Len(frames[i].f) + N(i - 1) IN N(Len(frames))
EveryCallOnce == Number = Len(calls)
EveryTimeOnce == /\ \A i, j \in DOMAIN frames : frames[i].t = frames[j].t => i = j
                 /\ {frames[i].t : i \in DOMAIN frames} = {calls[i].t : i \in DOMAIN calls}
LevelsKept == \A i \in DOMAIN calls : \E j \in DOMAIN frames : frames[j].t = calls[i].t /\ frames[j].l = calls[i].l
Replays == frames = Frames(calls)
Emit == (Show /\ Len(calls) = MaxCalls) => PrintT(<<"H", ToJson(calls)>>)
=============================================================================
