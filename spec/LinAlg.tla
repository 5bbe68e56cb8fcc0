------------------------------ MODULE LinAlg ------------------------------
(* C23: dense linear algebra over the Gaussian integers <<re, im>>.  A machine has registers for matrices    *)
(* (sequences of rows with their size) and vectors; an operation changes the register it writes and nothing  *)
(* else, also when one register is used several times in the same operation.                                 *)
EXTENDS Integers, Sequences, FiniteSets
Z == <<0, 0>>
One == <<1, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], 0 - a[2]>>
Norm2(a) == a[1] * a[1] + a[2] * a[2]
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN Z ELSE CAdd(s[1], CSum(Tail(s)))
RECURSIVE NSum(_)
NSum(s) == IF s = <<>> THEN 0 ELSE s[1] + NSum(Tail(s))
(* vectors *)
VMap(v, Op(_)) == [i \in 1..Len(v) |-> Op(v[i])]
VAdd(v, w) == [i \in 1..Len(v) |-> CAdd(v[i], w[i])]
VSub(v, w) == [i \in 1..Len(v) |-> CSub(v[i], w[i])]
VScale(s, v) == [i \in 1..Len(v) |-> CMul(s, v[i])]
Bilinear(v, w) == CSum([i \in 1..Len(v) |-> CMul(v[i], w[i])])
Sesqui(v, w) == CSum([i \in 1..Len(v) |-> CMul(v[i], Conj(w[i]))])
VNorm2(v) == NSum([i \in 1..Len(v) |-> Norm2(v[i])])
Cross(v, w) == IF Len(v) = 2 THEN <<CSub(CMul(v[1], w[2]), CMul(v[2], w[1])), Z>>
   ELSE LET D(a, b) == CSub(CMul(v[a], w[b]), CMul(v[b], w[a])) IN <<D(2, 3), D(3, 1), D(1, 2)>>
(* matrices [r, c, v] *)
Mat(r, c, F(_, _)) == [r |-> r, c |-> c, v |-> [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]]
MAdd(a, b) == Mat(a.r, a.c, LAMBDA i, j : CAdd(a.v[i][j], b.v[i][j]))
MSub(a, b) == Mat(a.r, a.c, LAMBDA i, j : CSub(a.v[i][j], b.v[i][j]))
MScale(s, a) == Mat(a.r, a.c, LAMBDA i, j : CMul(s, a.v[i][j]))
MMul(a, b) == Mat(a.r, b.c, LAMBDA i, j : CSum([k \in 1..a.c |-> CMul(a.v[i][k], b.v[k][j])]))
Transp(a) == Mat(a.c, a.r, LAMBDA i, j : a.v[j][i])
Adjoint(a) == Mat(a.c, a.r, LAMBDA i, j : Conj(a.v[j][i]))
Ident(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN One ELSE Z)
Column(v) == Mat(Len(v), 1, LAMBDA i, j : v[i])
RowOf(v) == Mat(1, Len(v), LAMBDA i, j : v[j])
MulVec(a, v) == [i \in 1..a.r |-> CSum([k \in 1..a.c |-> CMul(a.v[i][k], v[k])])]
VecMul(v, a) == [j \in 1..a.c |-> CSum([k \in 1..a.r |-> CMul(v[k], a.v[k][j])])]
Below(a, b) == Mat(a.r + b.r, a.c, LAMBDA i, j : IF i <= a.r THEN a.v[i][j] ELSE b.v[i - a.r][j])
Beside(a, b) == Mat(a.r, a.c + b.c, LAMBDA i, j : IF j <= a.c THEN a.v[i][j] ELSE b.v[i][j - a.c])
Hermitian(a) == a.r = a.c /\ a = Adjoint(a)
LowerPart(a) == Mat(a.r, a.c, LAMBDA i, j : IF j <= i THEN a.v[i][j] ELSE Z)
(* the entry at a position of the storage (columns first) *)
Entry(a, p) == a.v[(p % a.r) + 1][(p \div a.r) + 1]
PutEntry(a, p, s) == [a EXCEPT !.v[(p % a.r) + 1][(p \div a.r) + 1] = s]
Minor(a, i, j) == Mat(a.r - 1, a.c - 1, LAMBDA x, y : a.v[IF x < i THEN x ELSE x + 1][IF y < j THEN y ELSE y + 1])
RECURSIVE Det(_)
Det(a) == IF a.r = 0 THEN One
   ELSE CSum([j \in 1..a.c |-> CMul(IF j % 2 = 1 THEN a.v[1][j] ELSE CSub(Z, a.v[1][j]), Det(Minor(a, 1, j)))])
(* the i-th entry is the determinant of the matrix with the i-th unit vector as last column *)
Wedge(a) == [i \in 1..a.r |-> Det(Mat(a.r, a.r, LAMBDA x, y : IF y <= a.c THEN a.v[x][y] ELSE IF x = i THEN One ELSE Z))]
FirstColumns(a, n) == Mat(a.r, n, LAMBDA i, j : a.v[i][j])
RECURSIVE Before(_, _)                                     \* lexicographic, real values
Before(v, w) == v # <<>> /\ (v[1][1] < w[1][1] \/ (v[1][1] = w[1][1] /\ Before(Tail(v), Tail(w))))

(* The machine: st.M, st.V registers.  e: operation o on registers k, i, j, with a scalar s and numbers x.   *)
(* After gives the registers after an operation that is a function of the registers before.                  *)
(* blocks of a register as rectangular matrices, padded with zeros afterwards *)
Block(a, r, c) == Mat(r, c, LAMBDA i, j : a.v[i][j])
Padded(a, n) == Mat(n, n, LAMBDA i, j : IF i <= a.r /\ j <= a.c THEN a.v[i][j] ELSE Z)
PaddedV(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE Z]
Rectangular == {"rmul", "rmulto", "rtrans", "radd", "rsub", "rcopy", "rmulvec", "rvecmul"}
Rect(e, A, B, v, w) == LET r == e.x \div 10
                           c == e.x % 10
                           a == Block(A, r, c) IN
   CASE e.o = "rmul" -> Padded(MMul(a, Block(B, c, 3)), A.r)
     [] e.o = "rmulto" -> Padded(MMul(a, Block(B, c, c)), A.r)
     [] e.o = "rtrans" -> Padded(Transp(a), A.r)
     [] e.o = "radd" -> Padded(MAdd(a, Block(B, r, c)), A.r)
     [] e.o = "rsub" -> Padded(MSub(a, Block(B, r, c)), A.r)
     [] e.o = "rcopy" -> Padded(a, A.r)
     [] e.o = "rmulvec" -> PaddedV(MulVec(a, SubSeq(w, 1, c)), A.r)
     [] e.o = "rvecmul" -> PaddedV(VecMul(SubSeq(v, 1, r), Block(B, r, c)), A.r)
SetM(st, k, m) == [st EXCEPT !.M[k] = m]
SetV(st, k, v) == [st EXCEPT !.V[k] = v]
Functional(e, st) ==
   LET A == st.M[e.i]
       B == st.M[e.j]
       v == st.V[e.i]
       w == st.V[e.j]
   IN CASE e.o = "setm" -> SetM(st, e.k, e.m)
        [] e.o = "setv" -> SetV(st, e.k, e.v)
        [] e.o = "copy" -> SetM(st, e.k, A)
        [] e.o \in {"add", "addto"} -> SetM(st, e.k, MAdd(A, B))
        [] e.o \in {"sub", "subto"} -> SetM(st, e.k, MSub(A, B))
        [] e.o = "neg" -> SetM(st, e.k, MScale(<<0 - 1, 0>>, A))
        [] e.o \in {"scale", "lscale", "scaleto"} -> SetM(st, e.k, MScale(e.s, A))
        [] e.o = "scaleown" -> SetM(st, e.k, MScale(Entry(A, e.x), A))
        [] e.o \in {"mul", "mulc", "multo"} -> SetM(st, e.k, MMul(A, B))
        [] e.o = "axpy" -> SetM(st, e.k, MAdd(st.M[e.k], MScale(e.s, A)))
        [] e.o = "put" -> SetM(st, e.k, PutEntry(st.M[e.k], e.x, e.s))
        [] e.o = "cat" -> SetM(st, e.k, Below(A, B))
        [] e.o = "glue" -> SetM(st, e.k, Beside(A, B))
        [] e.o = "trans" -> SetM(st, e.k, Transp(A))
        [] e.o = "fromvec" -> SetM(st, e.k, Column(v))
        [] e.o = "col" -> SetV(st, e.k, [r \in 1..A.r |-> A.v[r][e.x + 1]])
        [] e.o = "row" -> SetV(st, e.k, A.v[e.x + 1])
        [] e.o \in {"mulvec", "mulvecc"} -> SetV(st, e.k, MulVec(A, w))
        [] e.o = "vecmul" -> SetV(st, e.k, VecMul(v, B))
        [] e.o = "wedge" -> SetV(st, e.k, Wedge(FirstColumns(A, A.r - 1)))
        [] e.o = "vcopy" -> SetV(st, e.k, v)
        [] e.o \in {"vadd", "vaddto"} -> SetV(st, e.k, VAdd(v, w))
        [] e.o \in {"vsub", "vsubto"} -> SetV(st, e.k, VSub(v, w))
        [] e.o = "vneg" -> SetV(st, e.k, VScale(<<0 - 1, 0>>, v))
        [] e.o \in {"vscale", "vlscale", "vscaleto"} -> SetV(st, e.k, VScale(e.s, v))
        [] e.o = "vscaleown" -> SetV(st, e.k, VScale(v[e.x + 1], v))
        [] e.o = "vaxpy" -> SetV(st, e.k, VAdd(st.V[e.k], VScale(e.s, v)))
        [] e.o = "vput" -> SetV(st, e.k, [st.V[e.k] EXCEPT ![e.x + 1] = e.s])
        [] e.o = "cross" -> SetV(st, e.k, Cross(v, w))
        [] e.o \in {"rmulvec", "rvecmul"} -> SetV(st, e.k, Rect(e, A, B, v, w))
        [] e.o \in Rectangular -> SetM(st, e.k, Rect(e, A, B, v, w))
        [] OTHER -> st                                         \* queries
(* operations that are described by what their result satisfies: k is the register written *)
Relational == {"div", "divto", "divown", "vdiv", "vdivto", "vdivown", "inv", "solve", "solvev", "pseudo", "chol", "solvechol", "lower", "lowerv", "rsolve"}
OnVectors == {"vdiv", "vdivto", "vdivown", "solvev", "pseudo", "lowerv"}
Op(a, t) == IF t = 0 THEN a ELSE IF t = 1 THEN Transp(a) ELSE Adjoint(a)
(* the equation of the result R (or r) of e, starting from st *)
Solves(e, st, R, r) ==
   LET A == st.M[e.i]
       v == st.V[e.k]
   IN CASE e.o \in {"div", "divto"} -> MScale(e.s, R) = A
        [] e.o = "divown" -> MScale(Entry(A, e.x), R) = A
        [] e.o \in {"vdiv", "vdivto"} -> VScale(e.s, r) = st.V[e.i]
        [] e.o = "vdivown" -> VScale(st.V[e.i][e.x + 1], r) = st.V[e.i]
        [] e.o = "inv" -> R.r = A.c /\ R.c = A.r /\ MMul(A, R) = Ident(A.r) /\ MMul(R, A) = Ident(A.r)
        [] e.o = "rsolve" -> LET n == e.x \div 10
                                 k == e.x % 10 IN
                             /\ MMul(Block(A, n, n), Block(R, n, k)) = Block(st.M[e.k], n, k) /\ R = Padded(Block(R, n, k), A.r)
        [] e.o = "solve" -> R.r = A.c /\ MMul(A, R) = st.M[e.k]
        [] e.o \in {"solvev", "pseudo"} -> Len(r) = A.c /\ MulVec(A, r) = v
        [] e.o = "chol" -> LET B == st.M[e.k] IN
              /\ R.r = B.r /\ R.c = B.c
              /\ MMul(LowerPart(R), Adjoint(LowerPart(R))) = B
              /\ \A i \in 1..B.r : R.v[i][i][1] > 0 /\ R.v[i][i][2] = 0
              /\ \A i \in 1..B.r : \A j \in 1..B.c : j > i => R.v[i][j] = B.v[i][j]
        [] e.o = "solvechol" -> MMul(MMul(LowerPart(A), Adjoint(LowerPart(A))), R) = st.M[e.k]
        (* x = 3 * side + transposition *)
        [] e.o = "lower" -> IF e.x < 3 THEN MMul(Op(LowerPart(A), e.x), R) = st.M[e.k]
                            ELSE MMul(R, Op(LowerPart(A), e.x - 3)) = st.M[e.k]
        [] e.o = "lowerv" -> Len(r) = Len(v) /\ IF e.x < 3 THEN MulVec(Op(LowerPart(A), e.x), r) = v
                            ELSE VecMul(r, Op(LowerPart(A), e.x - 3)) = v
(* the answer of a query (a pair of numbers) *)
Answer(e, st, small) ==
   LET A == st.M[e.i]
       v == st.V[e.i]
       w == st.V[e.j]
       B(b) == <<IF b THEN 1 ELSE 0, 0>>
   IN CASE e.o = "det" -> Det(A)
        [] e.o = "herm" -> B(Hermitian(A))
        [] e.o = "get" -> Entry(A, e.x)
        [] e.o = "dims" -> <<A.r, A.c>>
        [] e.o = "dot" -> IF small THEN Sesqui(v, w) ELSE Bilinear(v, w)
        [] e.o = "norm" -> <<VNorm2(v), Len(v)>>
        [] e.o = "eq" -> B(v = w)
        [] e.o = "less" -> B(Before(v, w))
Queries == {"det", "herm", "get", "dims", "dot", "norm", "eq", "less"}
=============================================================================
