---------------------------- MODULE OutputFiles ----------------------------
(* What the time dependent writer has produced: a list of frames. A field written with the time of the      *)
(* current frame goes into it, any other time starts a new frame.                                           *)
EXTENDS Integers, Sequences, FiniteSets
(* a call: [k kind, n name, t time, l time level] *)
Put(frames, x) ==
   LET fld == [k |-> x.k, n |-> x.n] IN
   IF frames = <<>> \/ frames[Len(frames)].t # x.t THEN Append(frames, [t |-> x.t, l |-> x.l, f |-> <<fld>>])
   ELSE [frames EXCEPT ![Len(frames)].f = Append(@, fld)]
RECURSIVE FramesUpTo(_, _)
FramesUpTo(calls, i) == IF i = 0 THEN <<>> ELSE Put(FramesUpTo(calls, i - 1), calls[i])
Frames(calls) == FramesUpTo(calls, Len(calls))
(* the use the documentation allows: no return to an earlier time, one level per time, no name twice in a frame *)
Allowed(frames, x) ==
   LET n == Len(frames) IN
   /\ \A i \in 1..n : i < n => frames[i].t # x.t
   /\ (n > 0 /\ frames[n].t = x.t) => (frames[n].l = x.l /\ \A j \in DOMAIN frames[n].f : frames[n].f[j].n # x.n)
=============================================================================
