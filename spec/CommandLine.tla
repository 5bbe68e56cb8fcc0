---------------------------- MODULE CommandLine ----------------------------
(* Parsing of a command line, one argument at a time.                         *)
(* A token is a record: s the text; k its reading where an option is expected *)
(* ("long" with name n, "short" with the sequence f of flags, "sep" or "bad");*)
(* i, u, d its reading as integer, unsigned and real number ("ERR": none,     *)
(* "ANY": not specified).                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Flags == [a |-> "all", b |-> "bee", n |-> "num", u |-> "uns", d |-> "dbl", s |-> "str", r |-> "req", h |-> "help"]
Type == [all |-> "flag", bee |-> "flag", help |-> "flag", crashOnWarn |-> "flag", num |-> "i", uns |-> "u", dbl |-> "d", str |-> "s", only |-> "i", req |-> "i"]
Names == DOMAIN Type
Defaults == [all |-> "F", bee |-> "F", help |-> "F", crashOnWarn |-> "F", num |-> "7", uns |-> "3", dbl |-> "0.5", str |-> "dflt", only |-> "-1", req |-> "0"]
Start == [mode |-> "tags", opt |-> "", v |-> Defaults, used |-> {}, rest |-> <<>>]
Reject(st) == [st EXCEPT !.mode = "rejected"]
(* an option is given; last: nothing of the same argument follows *)
Give(st, n, last) ==
   IF n \notin Names THEN Reject(st)
   ELSE IF Type[n] = "flag" THEN [st EXCEPT !.v[n] = "T", !.used = @ \cup {n}]
   ELSE IF last THEN [st EXCEPT !.mode = "arg", !.opt = n] ELSE Reject(st)
RECURSIVE Group(_, _, _)
Group(st, f, j) == IF st.mode = "rejected" \/ j > Len(f) THEN st
                   ELSE Group(Give(st, IF f[j] \in DOMAIN Flags THEN Flags[f[j]] ELSE "?", j = Len(f)), f, j + 1)
Value(t, ty) == CASE ty = "i" -> t.i [] ty = "u" -> t.u [] ty = "d" -> t.d [] ty = "s" -> t.s
Step(st, t) ==
   CASE st.mode \in {"rejected", "unspecified"} -> st
     [] st.mode = "rest" -> [st EXCEPT !.rest = Append(@, t.s)]
     [] st.mode = "arg" -> LET x == Value(t, Type[st.opt]) IN
                           IF Type[st.opt] # "s" /\ x = "ERR" THEN Reject(st)
                           ELSE IF Type[st.opt] # "s" /\ x = "ANY" THEN [st EXCEPT !.mode = "unspecified"]
                           ELSE [st EXCEPT !.mode = "tags", !.v[st.opt] = x, !.used = @ \cup {st.opt}, !.opt = ""]
     [] st.mode = "tags" -> CASE t.k = "sep" -> [st EXCEPT !.mode = "rest"]
                              [] t.k = "long" -> Give(st, t.n, TRUE)
                              [] t.k = "short" -> Group(st, t.f, 1)
                              [] t.k = "bad" -> Reject(st)
(* the verdict at the end of the list *)
Finish(st, required) ==
   IF st.mode = "unspecified" THEN st
   ELSE IF st.mode \in {"rejected", "arg"} \/ "help" \in st.used \/ (required /\ "req" \notin st.used) THEN Reject(st)
   ELSE st
(******************************************************************************)
CONSTANTS Tokens, MaxLen, OnlyValid
VARIABLES st, h
Init == st = Start /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \E j \in 1..Len(Tokens) :
             /\ st' = Step(st, Tokens[j]) /\ h' = Append(h, j)
             /\ OnlyValid => st'.mode \notin {"rejected", "unspecified"}
Spec == Init /\ [][Next]_<<st, h>>
(* properties of the parser itself *)
Undecided == st.mode \in {"tags", "arg", "rest"}
UnusedKeepDefault == \A n \in Names : n \notin st.used => st.v[n] = Defaults[n]
FlagsAreSet == \A n \in st.used : Type[n] = "flag" => st.v[n] = "T"
RestOnlyAfterSeparator == st.rest # <<>> => \E j \in 1..Len(h) : Tokens[h[j]].k = "sep"
OnlyGivenAreUsed == \A n \in st.used : \E j \in 1..Len(h) : Tokens[h[j]].n = n \/ \E f \in 1..Len(Tokens[h[j]].f) : Tokens[h[j]].f[f] \in DOMAIN Flags /\ Flags[Tokens[h[j]].f[f]] = n
Record == (OnlyValid => (Len(h) = MaxLen \/ Len(h) = MaxLen - 3)) => PrintT(<<"H", ToJson(h)>>)
=============================================================================
