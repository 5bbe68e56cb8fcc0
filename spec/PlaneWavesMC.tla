---------------------------- MODULE PlaneWavesMC ----------------------------
(* Plane waves solve the homogeneous equation when they are on the dispersion relation, and at an interface the      *)
(* tangential field, the curl over mu and the energy flux are continuous; for all small waves, materials and places. *)
EXTENDS PlaneWaves
CONSTANTS MaxK, MaxZ
VARIABLES w, d, x, c, m1, m2, ready
(* materials: refractive index n and ratio z give eps = n z, mu = n / z; only those with integer mu *)
Mats == {m \in [n : 1..3, z : 1..MaxZ] : m.n % m.z = 0}
Mu(m) == m.n \div m.z
Eps(m) == m.n * m.z
Init == w = [k |-> <<0, 0, 0>>, E |-> Zero, ph |-> 0] /\ d = 1 /\ x = <<0, 0, 0>> /\ c = 0 /\ m1 = [n |-> 1, z |-> 1] /\ m2 = m1 /\ ready = FALSE
Axis(k, t) == [j \in 1..3 |-> IF j = k THEN t ELSE 0]
Next == /\ ~ready /\ ready' = TRUE
        /\ \E k \in 1..3, om \in 1..MaxK, e \in {<<1, 0>>, <<1, 2>>}, ph \in 0..3, cc \in 0..2, a \in Mats, b \in Mats, y \in {<<0, 1, 3>>, <<2, 1, 0>>, <<1, 1, 2>>}, j \in 1..3 :
              /\ j # k
              /\ d' = k /\ c' = cc /\ m1' = a /\ m2' = b /\ x' = y
              /\ w' = [k |-> Axis(k, om * a.n), E |-> [q \in 1..3 |-> IF q = j THEN e ELSE <<0, 0>>], ph |-> ph]
Spec == Init /\ [][Next]_<<w, d, x, c, m1, m2, ready>>
Om == w.k[d] \div m1.n
Iso(m) == <<Mu(m), Mu(m), Mu(m)>>
Square(m) == Mu(m) * Mu(m)
Solves == ready => LET t == Transmitted(w, d, c, m1.n, m2.n, m1.z)  r == Reflected(w, d, c, m1.z, m2.z)
                       S(v, m) == VMinus(CurlCurl(v, x, Iso(m)), VScale(Re(Square(m) * Om * Om * Eps(m) * Mu(m)), Field(v, x)))
                   IN S(w, m1) = Zero /\ S(r, m1) = Zero /\ S(t, m2) = Zero
At == [x EXCEPT ![d] = c]
Continuous == ready =>
   LET t == Transmitted(w, d, c, m1.n, m2.n, m1.z)
       el == Both(LAMBDA v : Field(v, At), w, d, c, m1.z, m2.z)
       cl == Both(LAMBDA v : Curl(v, At), w, d, c, m1.z, m2.z)
   IN /\ el = Field(t, At)
      /\ VScale(Re(Mu(m2)), cl) = VScale(Re(Mu(m1)), Curl(t, At))
      /\ LET fl == FluxOf(el, cl, Iso(m1))  fr == FluxOf(Field(t, At), Curl(t, At), Iso(m2))
         IN \A q \in 1..3 : Square(m2) * Mu(m2) * fl[q] = Square(m1) * Mu(m1) * fr[q]
Forward == ready => LET f == FluxOf(Field(w, x), Curl(w, x), Iso(m1)) IN f[d] < 0 /\ \A q \in (1..3) \ {d} : f[q] = 0
=============================================================================
