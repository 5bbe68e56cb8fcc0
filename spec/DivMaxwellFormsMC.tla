------------------------- MODULE DivMaxwellFormsMC --------------------------
(* Two elements with a common facet: the mixed form - (u, grad q) + <{u.n}, [q]> is, by parts, (div u, q) minus the  *)
(* jumps of the normal component against the average of q; a field that continues across the facet has no such      *)
(* jumps, a potential that continues across it none in the form.                                                    *)
EXTENDS MaxwellFormsMC
VARIABLES ql, qr
Potentials(dm) == {[a |-> [i \in 1..dm |-> IF i = k THEN 1 ELSE 0], b |-> b] : k \in 0..dm, b \in Entries}
FromS(f, co) == [a |-> f.a, b |-> f.b + G!Dot(f.a, co[1])]
DInit == dim \in 2..3 /\ free \in {TRUE, FALSE} /\ gu \in Fields(dim) /\ vl = None /\ vr = None /\ ql = None /\ qr = None
DNext == /\ ql = None
         /\ vl' = From(gu, Co(dim, 1)) /\ vr' \in (IF free THEN Fields(dim) ELSE {From(gu, Co(dim, 2))})
         /\ ql' \in Potentials(dim) /\ qr' \in Potentials(dim) \cup {FromS(ql', Co(dim, 2))}
         /\ UNCHANGED <<dim, gu, free>>
DSpec == DInit /\ [][DNext]_<<dim, gu, vl, vr, free, ql, qr>>
(* all times 2 d! (d+1) 8^(d-1) *)
El(s) == E(s, IF s = 1 THEN vl ELSE vr, gu)
Q(s) == IF s = 1 THEN FromS(ql, Co(dim, 1)) ELSE qr
On1 == LeftVertices(El(1), Common(1))
On2 == RightVertices(El(1), Common(1), El(2), Common(2))
Outer(s) == Total([i \in 1..(dim + 1) |-> IF (i - 1) \in Facets(s) THEN
               LET fa == TLCEval(LeftVertices(El(s), i - 1)) IN SPairing(Flow(N(Co(dim, s), fa), On(El(s).u, Co(dim, s), fa)), SOn(Q(s), Co(dim, s), fa)) ELSE 0])
Normal == N(Co(dim, 1), On1)
UL == On(vl, Co(dim, 1), On1)
UR == On(vr, Co(dim, 2), On2)
QL == SOn(Q(1), Co(dim, 1), On1)
QR == SOn(Q(2), Co(dim, 2), On2)
Mixed == 2 * (Divergence(El(1), vl, Q(1)) + Divergence(El(2), vr, Q(2)) + Outer(1) + Outer(2))
         + SPairing(Flow(Normal, Plus(UL, UR)), SJump(QL, QR))
Trace(f) == Total([i \in DOMAIN f.b |-> f.A[i][i]])
Volume(s) == Det(Co(dim, s)) * Trace(El(s).u) * Total(SOn(Q(s), Co(dim, s), Co(dim, s)))
Jumps == SPairing(Flow(Normal, Jump(UL, UR)), [i \in DOMAIN QL |-> QL[i] + QR[i]])
Adjoint == ql = None \/ Mixed = 2 * (Volume(1) + Volume(2)) - Jumps
Fitting == ql = None \/ free \/ (Jumps = 0 /\ Mixed = 2 * (Volume(1) + Volume(2)))
Zeros == ql = None \/ qr # FromS(ql, Co(dim, 2)) \/ \A i \in DOMAIN QL : SJump(QL, QR)[i] = 0
=============================================================================
