------------------------------ MODULE TimeLoop ------------------------------
(* The time loop: from the start to the end of an interval with at most the requested step size, writing    *)
(* the initial state and a frame at each of F equally spaced output times. Time is counted in ticks; the    *)
(* interval is F * G ticks long, output times are the multiples of G. Adaptive = TRUE: any positive step up *)
(* to the limits may be taken, otherwise all steps are equal. Bad times model nothing: the invariants are   *)
(* the ones the recorded runs are judged by (TimeLoopTrace).                                                *)
EXTENDS Integers, Sequences
CONSTANTS MaxF, MaxG, Adaptive
VARIABLES F, G, dt, t, frames, times
vars == <<F, G, dt, t, frames, times>>
Min(a, b) == IF a < b THEN a ELSE b
End == IF F = 0 THEN G ELSE F * G
NextOut == IF F = 0 THEN End + G ELSE G * Len(frames)
Init == /\ F \in 0..MaxF /\ G \in 1..MaxG /\ dt \in 1..MaxG
        /\ (Adaptive \/ G % dt = 0)          (* equal steps are chosen to divide the time between frames *)
        /\ t = 0 /\ frames = <<0>> /\ times = <<>>
Step == /\ t < End
        /\ \E d \in 1..dt :
             /\ (Adaptive \/ d = dt)
             /\ d <= Min(NextOut - t, End - t)
             /\ t' = t + d /\ times' = Append(times, t + d)
             /\ frames' = IF t + d >= NextOut THEN Append(frames, t + d) ELSE frames
        /\ UNCHANGED <<F, G, dt>>
Spec == Init /\ [][Step]_vars
StepsSmall == \A i \in DOMAIN times : times[i] - (IF i = 1 THEN 0 ELSE times[i - 1]) \in 1..dt
NeverPast == t <= End
FramesRight == \A i \in DOMAIN frames : frames[i] = (i - 1) * G
AllAtEnd == (t = End) => Len(frames) = F + 1
=============================================================================
