---------------------------- MODULE IndexTables ----------------------------
(* Reading recorded numberings ("index" events) and mesh dumps of all ranks.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
S(q) == {q[i] : i \in 1..Len(q)}
R(e) == 1..Len(e.r)
RowsOf(e) == UNION {S(e.r[r].tab) : r \in R(e)}
(* total number of functions *)
N(e) == FoldLeft(LAMBDA s, x : s + x.nl, 0, e.r)
(* element / face id -> its sequence of global numbers *)
Pairs2Fun(ps) == [id \in {x[1] : x \in ps} |-> (CHOOSE x \in ps : x[1] = id)[2]]
GI(e) == Pairs2Fun(UNION {S(e.r[r].gi) : r \in R(e)})
(* face id -> global numbers, as seen by the process(es) knowing both sides: the longest *)
GF(e) == LET ps == TLCEval(UNION {S(e.r[r].gf) : r \in R(e)})
         IN [id \in {x[1] : x \in ps} |-> (CHOOSE x \in ps : x[1] = id /\ \A y \in ps : y[1] = id => Len(y[2]) <= Len(x[2]))[2]]
(* global number -> unknown *)
Unk(e) == LET rows == TLCEval(RowsOf(e))
          IN [g \in 0..(N(e) - 1) |-> (CHOOSE x \in rows : x[5] <= g /\ g < x[5] + x[4])[3]]
(* global number -> <<owning rank, local number>> *)
Own(e) == LET rows == TLCEval(UNION {{<<r, x[4], x[5], x[6]>> : x \in {y \in S(e.r[r].tab) : y[7] = 1}} : r \in R(e)})
          IN [g \in 0..(N(e) - 1) |-> LET x == CHOOSE y \in rows : y[3] <= g /\ g < y[3] + y[2] IN <<x[1], x[4] + g - x[3]>>]
(* <<kind, id, unknown>> -> <<count, first global number>> *)
Tab(e) == LET rows == TLCEval({<<<<x[1], x[2], x[3]>>, <<x[4], x[5]>>>> : x \in RowsOf(e)}) IN Pairs2Fun(rows)
=============================================================================
