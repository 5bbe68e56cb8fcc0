------------------------------ MODULE BandsMC -------------------------------
(* Square and skew lattices in two dimensions: the spectrum is periodic with the lattice and even, and a line        *)
(* contains at both ends exactly the modes of the spectrum there, up to the bound.                                  *)
EXTENDS Bands
CONSTANTS Top, Box, K
VARIABLES B, k, l
Bases == {<<<<1, 0>>, <<0, 1>>>>, <<<<2, 0>>, <<1, 2>>>>, <<<<1, 0>>, <<0, 2>>>>}
Points == (0..K) \X (0..K)
Init == B \in Bases /\ k = <<0, 0>> /\ l = <<0, 0>>
Next == l = <<0, 0>> /\ k' \in Points /\ l' \in Points \ {k'} /\ UNCHANGED B
Spec == Init /\ [][Next]_<<B, k, l>>
S(x) == Spectrum(B, Box, x, Top)
Shift(x, i, m) == [d \in 1..2 |-> m * (x[d] + 4 * B[i][d])]
Periodic == \A i \in 1..2 : S(Shift(k, i, 1)) = S(k) /\ S(Shift(k, i, 0 - 1)) = S(k)
Modes(f, i) == LET key == {x \in DOMAIN f : x[i] <= Top}
                   RECURSIVE G(_, _)
                   G(T, s) == IF T = {} THEN 0 ELSE LET y == CHOOSE y \in T : TRUE IN (IF y[i] = s THEN f[y] ELSE 0) + G(T \ {y}, s)
               IN [s \in {x[i] : x \in key} |-> G(key, s) + (IF s = 0 THEN 1 ELSE 0)]
Ends == k = l \/ LET f == TLCEval(Lines(B, Box, k, l, Top)) IN Modes(f, 1) = S(k) /\ Modes(f, 3) = S(l)
=============================================================================
