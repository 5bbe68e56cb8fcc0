------------------------------- MODULE Storage -------------------------------
(* Data stored on elements (coefficients per time level, time integration      *)
(* vectors, matrices, vectors) and on faces (composite matrices, vectors,      *)
(* residue).  A write is [op, k (object), n (write number), a (arguments)];    *)
(* it stores the values Val(n, i), so that every write is recognisable.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
U == 0 - 999999999                       \* nothing written here yet
Val(n, i) == n * 100 + i                 \* value number i (from 0) of write number n
RECURSIVE Sum(_, _)
Sum(n, k) == IF k = 0 THEN 0 ELSE n[k] + Sum(n, k - 1)
Tot(n) == Sum(n, Len(n))
Blank(k) == [i \in 1..k |-> U]
BlankM(r, q) == [i \in 1..r |-> [j \in 1..q |-> U]]
NewElement(n, tls) == [n |-> n, tl |-> [t \in 1..tls |-> <<>>], iv |-> <<>>, em |-> [i \in 1..4 |-> <<>>], ev |-> [i \in 1..4 |-> <<>>]]
NewFace == [fm |-> [i \in 1..4 |-> [d |-> <<>>, w |-> <<>>]], fv |-> [i \in 1..4 |-> <<>>], fr |-> <<>>]
(* ------------------------------------------------ element vectors *)
Sized(v, n) == IF Len(v) = Tot(n) THEN v ELSE Blank(Tot(n))
Entry(n, u, j) == Sum(n, u) + j + 1                        \* position (from 1) of function j of unknown u
PutEntry(v, i, x) == [v EXCEPT ![i] = x]
PutSub(v, n, u, wn) == [i \in DOMAIN v |-> IF i > Sum(n, u) /\ i <= Sum(n, u + 1) THEN Val(wn, i - Sum(n, u) - 1) ELSE v[i]]
PutAll(k, wn) == [i \in 1..k |-> Val(wn, i - 1)]
PutMat(r, q, wn) == [i \in 1..r |-> [j \in 1..q |-> Val(wn, (i - 1) * q + j - 1)]]
Part(v, n, u) == SubSeq(v, Sum(n, u) + 1, Sum(n, u + 1))
ApplyE(x, e) ==
   LET a == e.a  n == x.n IN
   CASE e.op = "tld" -> [x EXCEPT !.tl[a[1] + 1] = PutEntry(Sized(@, n), Entry(n, a[2], a[3]), Val(e.n, 0))]
     [] e.op = "tls" -> [x EXCEPT !.tl[a[1] + 1] = PutSub(Sized(@, n), n, a[2], e.n)]
     [] e.op = "tlv" -> [x EXCEPT !.tl[a[1] + 1] = PutAll(Tot(n), e.n)]
     [] e.op = "tlr" -> [x EXCEPT !.tl[a[1] + 1] = PutEntry(Sized(@, n), a[2] + 1, Val(e.n, 0))]
     [] e.op = "ivn" -> [x EXCEPT !.iv = [i \in 1..a[1] |-> IF i \in DOMAIN @ THEN @[i] ELSE Blank(Tot(n))]]
     [] e.op = "ivd" -> [x EXCEPT !.iv[a[1] + 1] = PutEntry(@, Entry(n, a[2], a[3]), Val(e.n, 0))]
     [] e.op = "ivs" -> [x EXCEPT !.iv[a[1] + 1] = PutSub(@, n, a[2], e.n)]
     [] e.op = "ivv" -> [x EXCEPT !.iv[a[1] + 1] = PutAll(Tot(n), e.n)]
     [] e.op = "ivr" -> [x EXCEPT !.iv[a[1] + 1] = PutEntry(@, a[2] + 1, Val(e.n, 0))]
     [] e.op = "em" -> [x EXCEPT !.em[a[1] + 1] = PutMat(a[2], a[3], e.n)]
     [] e.op = "emr" -> [x EXCEPT !.em[a[1] + 1][a[2] + 1][a[3] + 1] = Val(e.n, 0)]
     [] e.op = "ev" -> [x EXCEPT !.ev[a[1] + 1] = PutAll(a[2], e.n)]
(* new bases: sizes change and nothing is known about the contents *)
Rebase(x, n) == [x EXCEPT !.n = n, !.tl = [t \in DOMAIN @ |-> <<>>], !.iv = [t \in DOMAIN @ |-> Blank(Tot(n))]]
(* ------------------------------------------------ face matrices *)
(* w is the matrix as a whole: left rows/columns before right ones *)
Lo(d, s) == IF s = 0 THEN 0 ELSE d[1]
PutBlock(m, s, t, wn) == [m EXCEPT !.w = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |->
       IF i > Lo(m.d, s) /\ i <= Lo(m.d, s) + m.d[s + 1] /\ j > Lo(m.d, t) /\ j <= Lo(m.d, t) + m.d[t + 1]
       THEN Val(wn, (i - Lo(m.d, s) - 1) * m.d[t + 1] + j - Lo(m.d, t) - 1) ELSE @[i][j]]]]
Block(m, s, t) == [i \in 1..m.d[s + 1] |-> [j \in 1..m.d[t + 1] |-> m.w[Lo(m.d, s) + i][Lo(m.d, t) + j]]]
Plus(x, y) == IF x = U \/ y = U THEN U ELSE x + y
Times(k, x) == IF x = U THEN U ELSE k * x
Axpy(m, k, o) == [m EXCEPT !.w = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> Plus(@[i][j], Times(k, o.w[i][j]))]]]
FM(l, r, wn) == [d |-> <<l, r>>, w |-> PutMat(l + r, l + r, wn)]
ApplyF(x, e) ==
   LET a == e.a IN
   CASE e.op = "fm" -> [x EXCEPT !.fm[a[1] + 1] = FM(a[2], a[3], e.n)]
     [] e.op = "fmm" -> [x EXCEPT !.fm[a[1] + 1] = FM(a[2], a[2], e.n)]
     [] e.op = "fmw" -> [x EXCEPT !.fm[a[1] + 1].w = PutMat(Len(@), Len(@), e.n)]
     [] e.op \in {"fms", "fmr"} -> [x EXCEPT !.fm[a[1] + 1] = PutBlock(@, a[2], a[3], e.n)]
     [] e.op = "fme" -> [x EXCEPT !.fm[a[1] + 1].w[a[2] + 1][a[3] + 1] = Val(e.n, 0)]
     [] e.op = "fmE" -> LET d == x.fm[a[1] + 1].d IN [x EXCEPT !.fm[a[1] + 1].w[Lo(d, a[2]) + a[4] + 1][Lo(d, a[3]) + a[5] + 1] = Val(e.n, 0)]
     [] e.op = "fmx" -> [x EXCEPT !.fm[a[1] + 1] = Axpy(@, a[3], x.fm[a[2] + 1])]
     [] e.op = "fmp" -> [x EXCEPT !.fm[a[1] + 1] = Axpy(@, 1, x.fm[a[2] + 1])]
     [] e.op = "fmt" -> [x EXCEPT !.fm[a[1] + 1].w = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> Times(a[2], @[i][j])]]]
     [] e.op \in {"fmc", "fma"} -> [x EXCEPT !.fm[a[1] + 1] = x.fm[a[2] + 1]]
     [] e.op = "fmz" -> [x EXCEPT !.fm[a[1] + 1] = [d |-> <<a[2], a[3]>>, w |-> BlankM(a[2] + a[3], a[2] + a[3])]]
     [] e.op = "fv" -> [x EXCEPT !.fv[a[1] + 1] = PutAll(a[2], e.n)]
     [] e.op = "fr" -> [x EXCEPT !.fr = PutAll(a[1], e.n)]
FaceOps == {"fm", "fmm", "fmw", "fms", "fmr", "fme", "fmE", "fmx", "fmp", "fmt", "fmc", "fma", "fmz", "fv", "fr"}
Apply(s, e) == IF e.op = "obs" THEN s ELSE IF e.op \in FaceOps THEN [s EXCEPT !.fa[e.k] = ApplyF(@, e)] ELSE [s EXCEPT !.el[e.k] = ApplyE(@, e)]
\* -------------------------------------------------------------------- model
CONSTANTS MaxOps, Which               \* Which: "element" or "face"
VARIABLES s, hist
vars == <<s, hist>>
N0 == <<1, 2>>
Init == /\ hist = <<>>
        /\ s = [el |-> <<[NewElement(N0, 2) EXCEPT !.iv = <<Blank(3), Blank(3)>>], [NewElement(<<1, 1>>, 2) EXCEPT !.iv = <<Blank(2), Blank(2)>>]>>,
                fa |-> <<[NewFace EXCEPT !.fm[1] = FM(1, 2, 90), !.fm[2] = FM(1, 2, 91)]>>]
ElementOps(n) ==
   LET Op(o, a) == [op |-> o, k |-> 1, n |-> n, a |-> a] IN
   UNION {{Op(p \o "d", <<t, u, j>>) : u \in 0..1, j \in 0..0} \cup {Op(p \o "d", <<t, 1, 1>>)} \cup {Op(p \o "s", <<t, u>>) : u \in 0..1}
          \cup {Op(p \o "v", <<t>>)} \cup {Op(p \o "r", <<t, i>>) : i \in 0..2} : p \in {"tl", "iv"}, t \in 0..1}
FaceOpsM(n) ==
   LET Op(o, a) == [op |-> o, k |-> 1, n |-> n, a |-> a] IN
   UNION {{Op("fm", <<i, 1, 2>>), Op("fm", <<i, 2, 1>>), Op("fm", <<i, 2, 0>>), Op("fmm", <<i, 1>>), Op("fmw", <<i>>), Op("fmt", <<i, 2>>)}
          \cup {Op("fms", <<i, x, y>>) : x \in 0..1, y \in 0..1} \cup {Op("fmr", <<i, x, y>>) : x \in 0..1, y \in 0..1}
          \cup {Op("fme", <<i, x, y>>) : x \in 0..1, y \in 0..1}
          \cup (IF s.fa[1].fm[i + 1].d = <<1, 2>> THEN {Op("fmE", <<i, 1, 0, 1, 0>>), Op("fmE", <<i, 0, 1, 0, 1>>), Op("fmE", <<i, 1, 1, 1, 0>>)} ELSE {})
          \cup {Op("fmc", <<i, 1 - i>>), Op("fma", <<i, 1 - i>>)}
          \cup (IF s.fa[1].fm[1].d = s.fa[1].fm[2].d THEN {Op("fmx", <<i, 1 - i, 3>>), Op("fmp", <<i, 1 - i>>)} ELSE {}) : i \in 0..1}
Do(e) == s' = Apply(s, e) /\ hist' = Append(hist, e)
Next == Len(hist) < MaxOps /\ \E e \in (IF Which = "element" THEN ElementOps(Len(hist) + 1) ELSE FaceOpsM(Len(hist) + 1)) : Do(e)
Spec == Init /\ [][Next]_vars
(* which entries (from 1) of its vector a write covers, and the value it gives to entry i *)
Covers(e, i) == CASE e.op \in {"tld", "ivd"} -> i = Entry(N0, e.a[2], e.a[3])
                  [] e.op \in {"tls", "ivs"} -> i > Sum(N0, e.a[2]) /\ i <= Sum(N0, e.a[2] + 1)
                  [] e.op \in {"tlv", "ivv"} -> TRUE
                  [] e.op \in {"tlr", "ivr"} -> i = e.a[2] + 1
Gives(e, i) == CASE e.op \in {"tls", "ivs"} -> Val(e.n, i - 1 - Sum(N0, e.a[2])) [] e.op \in {"tlv", "ivv"} -> Val(e.n, i - 1) [] OTHER -> Val(e.n, 0)
Kind(e) == IF e.op \in {"tld", "tls", "tlv", "tlr"} THEN "tl" ELSE "iv"
LastWrite == Which = "element" => \A kind \in {"tl", "iv"}, t \in 0..1 :
   LET v == IF kind = "tl" THEN s.el[1].tl[t + 1] ELSE s.el[1].iv[t + 1] IN
   \A i \in DOMAIN v : LET W == {h \in DOMAIN hist : Kind(hist[h]) = kind /\ hist[h].a[1] = t /\ Covers(hist[h], i)} IN
       v[i] = IF W = {} THEN U ELSE Gives(hist[CHOOSE h \in W : \A g \in W : g <= h], i)
Untouched == s.el[2] = [NewElement(<<1, 1>>, 2) EXCEPT !.iv = <<Blank(2), Blank(2)>>]
(* a face matrix is made of its four blocks *)
Blocks == \A i \in 1..2 : LET m == s.fa[1].fm[i] IN
   /\ Len(m.w) = m.d[1] + m.d[2]
   /\ \A r \in DOMAIN m.w, q \in DOMAIN m.w :
        m.w[r][q] = LET a == IF r <= m.d[1] THEN 0 ELSE 1  b == IF q <= m.d[1] THEN 0 ELSE 1 IN Block(m, a, b)[r - Lo(m.d, a)][q - Lo(m.d, b)]
(* a write to one face matrix leaves the other alone *)
Frame == [][Len(hist') > Len(hist) /\ Which = "face" => LET e == hist'[Len(hist')] IN s'.fa[1].fm[2 - e.a[1]] = s.fa[1].fm[2 - e.a[1]]]_vars
Emit == IF Len(hist) = MaxOps THEN PrintT(<<"H", ToJson(hist)>>) ELSE TRUE
=============================================================================
