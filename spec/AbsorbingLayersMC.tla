-------------------------- MODULE AbsorbingLayersMC --------------------------
(* Elements in a row, two of its ends on the outside and each element with an outer face above: with all zones,      *)
(* layers and owners, processes that each add up the faces they own and share the sums get the same transmission as *)
(* one process.  And the laws of the stretched materials at all points of layers, also in corners.                  *)
EXTENDS AbsorbingLayers
CONSTANTS NE, NZ, NP, MaxR
VARIABLES zn, dirs, ow, sums, done, r
Mesh == [zn |-> zn, names |-> [i \in 1..NZ |-> i], lo |-> <<0, 0>>, hi |-> <<NE, 1>>,
         bf |-> [i \in 1..NE |-> [e |-> i, v |-> << <<i - 1, 1>>, <<i, 1>> >>]] \o << [e |-> 1, v |-> << <<0, 0>>, <<0, 1>> >>], [e |-> NE, v |-> << <<NE, 0>>, <<NE, 1>> >>] >>]
Dirs == {<<>>, <<1, 0>>, <<0 - 1, 0>>, <<0, 1>>, <<1, 1>>, <<0, 0>>}
Init == zn = [i \in 1..NE |-> 1] /\ dirs = [i \in 1..NE |-> <<>>] /\ ow = [i \in 1..NE |-> 1] /\ sums = <<>> /\ done = {} /\ r \in {<<a, b, c>> : a, b, c \in 0..MaxR}
Choose == done = {} /\ r = <<0, 0, 0>> /\ zn' \in [1..NE -> 1..NZ] /\ dirs' \in [1..NE -> Dirs] /\ ow' \in [1..NE -> 1..NP] /\ done' = {0} /\ r' = r
          /\ sums' = [z \in 1..NZ |-> <<0, 0>>]
Add == \E q \in (1..NP) \ done : 0 \in done /\ done' = done \cup {q} /\ UNCHANGED <<zn, dirs, ow, r>>
          /\ sums' = [z \in 1..NZ |-> LET F == {i \in FacesOf(Mesh, dirs, z) : ow[Mesh.bf[i].e] = q} IN <<sums[z][1] + Area(Mesh, F), sums[z][2] + Total(Mesh, F, LAMBDA e : e * e)>>]
Next == Choose \/ Add
Spec == Init /\ [][Next]_<<zn, dirs, ow, sums, done, r>>
Together == done = 0..NP => \A z \in 1..NZ : LET F == FacesOf(Mesh, dirs, z) IN sums[z] = <<Area(Mesh, F), Total(Mesh, F, LAMBDA e : e * e)>> /\ (sums[z][1] > 0) = (\E i \in DOMAIN Layers(Mesh, dirs) : Layers(Mesh, dirs)[i] = z)
(* a material and its inverse; outside of the layers nothing changes; the stretched material takes the field of the  *)
(* layer to the flux of the original one                                                                             *)
Norm(k) == LET s == Stretch(r, k) IN s[1] * s[1] + s[2] * s[2]
All3 == Norm(1) * Norm(2) * Norm(3)
DivOf(k) == Scale(All3 \div Norm(k), Mul(Others(r, k), Conj(Stretch(r, k))))
Laws == done = {} => \A k \in 1..3 :
           /\ DivOK(r, k, All3, 1, <<1, 0>>, DivOf(k))
           /\ r = <<0, 0, 0>> => DivOf(k) = <<1, 0>>
           /\ Mul(DivOf(k), Stretch(r, k)) = Scale(All3, Others(r, k))
           /\ CurlOK(r, k, All3, 1, DivOf(k), Scale(All3 * All3, <<1, 0>>))
=============================================================================
