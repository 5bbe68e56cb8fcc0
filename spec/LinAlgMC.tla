------------------------------ MODULE LinAlgMC ------------------------------
(* The laws of the operators for all small matrices, and all programs of a few operations: which operation   *)
(* on which registers (their contents are filled in by the replay).                                          *)
EXTENDS LinAlg, TLC, Json
CONSTANTS Entries, N, Ops, MaxOps
VARIABLES a, b, hist
Num == {<<x, 0>> : x \in Entries} \cup {<<0, 1>>}
Mats == {[r |-> N, c |-> N, v |-> v] : v \in [1..N -> [1..N -> Num]]}
Laws == /\ a \in Mats /\ b \in Mats /\ hist = <<>>
LNext == UNCHANGED <<a, b, hist>>
LSpec == Laws /\ [][LNext]_<<a, b, hist>>
Adj(m) == Mat(m.r, m.r, LAMBDA i, j : IF (i + j) % 2 = 0 THEN Det(Minor(m, j, i)) ELSE CSub(Z, Det(Minor(m, j, i))))
LawsOK == /\ Det(MMul(a, b)) = CMul(Det(a), Det(b))
          /\ Transp(MMul(a, b)) = MMul(Transp(b), Transp(a))
          /\ Adjoint(MMul(a, b)) = MMul(Adjoint(b), Adjoint(a))
          /\ MMul(a, Adj(a)) = MScale(Det(a), Ident(N))
          /\ MulVec(MMul(a, b), a.v[1]) = MulVec(a, MulVec(b, a.v[1]))
          /\ Hermitian(MMul(a, Adjoint(a)))
          (* the wedge vector is perpendicular to the columns it is made of *)
          /\ LET f == FirstColumns(a, N - 1) IN \A j \in 1..(N - 1) : Bilinear(Wedge(f), [i \in 1..N |-> f.v[i][j]]) = Z
          /\ MulVec(Beside(a, b), a.v[1] \o b.v[1]) = VAdd(MulVec(a, a.v[1]), MulVec(b, b.v[1]))
          /\ MulVec(Below(a, b), a.v[1]) = MulVec(a, a.v[1]) \o MulVec(b, a.v[1])
(* programs: operation, registers *)
PInit == a = 0 /\ b = 0 /\ hist = <<>>
PNext == /\ Len(hist) < MaxOps
         /\ \E o \in Ops : \E k, i, j \in 1..2 : hist' = Append(hist, <<o, k, i, j>>)
         /\ UNCHANGED <<a, b>>
PSpec == PInit /\ [][PNext]_<<a, b, hist>>
Emit == Len(hist) = MaxOps => PrintT(<<"H", ToJson(hist)>>)
=============================================================================
