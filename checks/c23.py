"""C23: dense linear algebra gives the defined result, whichever operands are used together."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *

LAWS = "CONSTANTS Entries = {%s}\n N = %d\n Ops = {}\n MaxOps = 0\nSPECIFICATION LSpec\nINVARIANT LawsOK\n"
PROG = "CONSTANTS Entries = {}\n N = 1\n Ops = {%s}\n MaxOps = %d\nSPECIFICATION PSpec\nCONSTRAINT Emit\n"
MAT = ["copy", "add", "sub", "neg", "addto", "subto", "scale", "lscale", "scaleto", "div", "divto", "scaleown", "divown", "mul", "mulc", "multo", "axpy", "trans",
       "inv", "solve", "put", "get", "dims"]
VEC = ["vcopy", "vadd", "vsub", "vneg", "vaddto", "vsubto", "vscale", "vlscale", "vscaleto", "vdiv", "vdivto", "vscaleown", "vdivown", "vaxpy", "vput", "dot", "norm", "eq", "less"]
MIX = ["mulvec", "mulvecc", "vecmul", "col", "row", "solvev", "wedge"]
DYN = ["cat", "glue", "fromvec", "chol", "solvechol", "lower", "lowerv", "pseudo", "herm"]
RECT = ["rmul", "rmulto", "rtrans", "radd", "rsub", "rcopy", "rmulvec", "rvecmul", "rsolve"]
BLOCKS = [12, 21, 13, 31, 23, 32, 24, 42, 43, 34, 22]
OWN = {"addto", "subto", "scaleto", "divto", "scaleown", "divown", "multo", "cat", "vaddto", "vsubto", "vscaleto", "vdivto", "vscaleown", "vdivown"}


class Gen:
    """Makes programs; knows only sizes and a bound of the entries of the registers."""
    def __init__(self, rng, kind, n, cplx):
        self.r, self.kind, self.n, self.z = rng, kind, n, cplx
        self.out, self.m, self.v = [], {}, {}      # register -> (rows, columns, bound) / (size, bound)

    def num(self, b=4):
        return (self.r.randint(-b, b), self.r.randint(-b, b) if self.z and self.r.random() < .6 else 0)

    def emit(self, o, k=1, i=1, j=1, s=(0, 0), x=0, data=""):
        self.out.append("%s %d %d %d %d %d %d %s" % (o, k, i, j, s[0], s[1], x, data))

    def setm(self, k, a):
        self.emit("setm", k, data="%d %d %s" % (len(a), len(a[0]), " ".join("%d %d" % x for row in a for x in row)))
        self.m[k] = (len(a), len(a[0]), max([1] + [abs(x) for row in a for q in row for x in q]))

    def setv(self, k, v):
        self.emit("setv", k, data="%d %s" % (len(v), " ".join("%d %d" % x for x in v)))
        self.v[k] = (len(v), max([1] + [abs(x) for q in v for x in q]))

    def mat(self, k, r, c, b=4, mult=(1, 0)):
        self.setm(k, [[mul(mult, self.num(b)) for _ in range(c)] for _ in range(r)])

    def vec(self, k, n, b=4, mult=(1, 0)):
        self.setv(k, [mul(mult, self.num(b)) for _ in range(n)])

    def unimodular(self, n):
        a = [[(1 if i == j else 0, 0) for j in range(n)] for i in range(n)]
        self.r.shuffle(a)
        for _ in range(n + 1):
            i, j = self.r.randrange(n), self.r.randrange(n)
            if i != j:
                f = self.num(1)
                a[i] = [add(x, mul(f, y)) for x, y in zip(a[i], a[j])]
        if self.z and self.r.random() < .5:
            a[0] = [mul((0, 1), x) for x in a[0]]
        return a

    def lower(self, n, diag):
        """lower triangular (unit like diagonal when diag), anything above"""
        return [[(self.r.randint(1, 1 if diag else 3), 0) if i == j else self.num(2) for j in range(n)] for i in range(n)]

    def size(self):
        return self.n if self.kind != "dyn" else self.r.randint(1, 5)

    def needm(self, k, r, c, limit=1000):
        if k not in self.m or self.m[k][:2] != (r, c) or self.m[k][2] > limit:
            self.mat(k, r, c)

    def needv(self, k, n, limit=1000):
        if k not in self.v or self.v[k][0] != n or self.v[k][1] > limit:
            self.vec(k, n)

    def op(self, o, k, i, j):
        r = self.r
        if o in OWN:
            i = k
        s, x = self.num(3), 0
        n = self.size()
        c = n if self.kind != "dyn" or r.random() < .4 else self.size()
        M, V = self.m, self.v
        square = False
        if o in ("add", "sub", "addto", "subto"):
            self.needm(i, *(M[i][:2] if i in M else (n, c)))
            self.needm(j, *M[i][:2])
            b = M[i][2] + M[j][2]; M[k] = M[i][:2] + (b,)
        elif o == "axpy":
            self.needm(i, *(M[i][:2] if i in M else (n, c)))
            self.needm(k, *M[i][:2])
            x = r.randint(0, 1)
            M[k] = M[k][:2] + (M[k][2] + 8 * M[i][2],)
        elif o in ("copy", "neg", "trans", "get", "dims", "scale", "lscale", "scaleto", "herm"):
            if o == "herm":
                a = [[self.num(3) for _ in range(n)] for _ in range(c)]
                if r.random() < .8:
                    a = [[self.num(3) for _ in range(n)] for _ in range(n)]
                    for p in range(n):
                        a[p][p] = (a[p][p][0], 0)
                        for q in range(p):
                            a[p][q] = (a[q][p][0], -a[q][p][1])
                    if r.random() < .5:
                        p, q = r.randrange(n), r.randrange(n)
                        a[p][q] = add(a[p][q], (0, 1) if self.z else (1, 0))
                self.setm(i, a)
            self.needm(i, *(M[i][:2] if i in M else (n, c)))
            R, Cc, b = M[i]
            if o == "get":
                x = r.randrange(R * Cc)
                self.emit(o, k, i, j, s, x)
                return
            if o == "copy":
                x = r.randint(0, 3)
            if o in ("dims", "herm"):
                pass
            elif o == "trans":
                M[k] = (Cc, R, b)
            else:
                M[k] = (R, Cc, b * (1 if o in ("copy", "neg") else 6))
        elif o in ("div", "divto", "divown"):
            s = (0, 0)
            while s == (0, 0):
                s = self.num(4)
            a = [[mul(s, self.num(4)) for _ in range(c)] for _ in range(n)]
            x = r.randrange(n * c)
            a[x % n][x // n] = s
            self.setm(i, a)
            M[k] = M[i]
        elif o == "scaleown":
            self.mat(i, n, c)
            x = r.randrange(n * c)
            M[k] = (n, c, 40)
        elif o == "put":
            self.needm(k, *(M[k][:2] if k in M else (n, c)))
            x = r.randrange(M[k][0] * M[k][1])
        elif o in ("mul", "mulc", "multo"):
            if i == j:
                n = c
            self.needm(i, *(M[i][:2] if i in M and (i != j or M[i][0] == M[i][1]) else (n, c)), limit=50)
            cc = M[i][1]
            self.needm(j, cc, *([cc] if i == j else [M[j][1] if j in M and M[j][0] == cc else self.size()]), limit=50)
            M[k] = (M[i][0], M[j][1], M[i][2] * M[j][2] * 2 * cc)
        elif o in ("cat", "glue"):
            self.needm(i, *(M[i][:2] if i in M and max(M[i][:2]) < 8 else (n, c)))
            if i != j:
                self.needm(j, *((r.randint(1, 4), M[i][1]) if o == "cat" else (M[i][0], r.randint(1, 4))))
            A, B = M[i], M[j]
            M[k] = (A[0] + B[0], A[1], max(A[2], B[2])) if o == "cat" else (A[0], A[1] + B[1], max(A[2], B[2]))
        elif o == "fromvec":
            self.needv(i, V[i][0] if i in V else n)
            M[k] = (V[i][0], 1, V[i][1])
        elif o in ("inv", "solve", "solvev", "pseudo", "chol", "solvechol", "lower", "lowerv"):
            if o == "inv" or o in ("solve", "solvev", "pseudo"):
                self.setm(i, self.unimodular(n))
            elif o == "chol":
                l = self.lower(n, False)
                l = [[l[p][q] if q <= p else (0, 0) for q in range(n)] for p in range(n)]
                self.setm(k, [[tot(mul(l[p][t], (l[q][t][0], -l[q][t][1])) for t in range(n)) for q in range(n)] for p in range(n)])
            else:
                self.setm(i, self.lower(n, True))
            if o == "lower" or o == "lowerv":
                x = r.randint(0, 5)
            if o in ("solve", "solvechol", "lower") and k != i:
                w = self.n if self.kind != "dyn" else r.randint(1, 4)
                self.mat(k, *((n, w) if x < 3 else (w, n)))
            if o in ("solvev", "pseudo", "lowerv"):
                self.vec(k, n)
                V[k] = (n, 10 ** 6)
            else:
                M[k] = (n, n, 10 ** 6) if k == i or o in ("inv", "chol") else M[k][:2] + (10 ** 6,)
            if o in ("solvechol", "lower") and k == i:
                return                                       # the factor as its own right-hand side has entries above
        elif o in ("mulvec", "mulvecc"):
            self.needm(i, *(M[i][:2] if i in M else (n, c)), limit=50)
            self.needv(j, M[i][1], limit=50)
            V[k] = (M[i][0], M[i][2] * V[j][1] * 2 * M[i][1])
        elif o == "vecmul":
            self.needm(j, *(M[j][:2] if j in M else (n, c)), limit=50)
            self.needv(i, M[j][0], limit=50)
            V[k] = (M[j][1], M[j][2] * V[i][1] * 2 * M[j][0])
        elif o in ("col", "row"):
            self.needm(i, *(M[i][:2] if i in M else (n, c)))
            x = r.randrange(M[i][1] if o == "col" else M[i][0])
            V[k] = (M[i][0] if o == "col" else M[i][1], M[i][2])
        elif o == "wedge":
            n = self.n if self.kind != "dyn" else r.randint(2, 4)
            if n < 2:
                return
            self.mat(i, n, n if self.kind != "dyn" else n - 1)
            V[k] = (n, 10 ** 6)
        elif o == "det":
            self.needm(i, n, n, limit=4)
        elif o in ("vadd", "vsub", "vaddto", "vsubto", "dot", "eq", "less", "cross"):
            n = V[i][0] if i in V else n
            lim = 50 if o in ("dot", "cross") else 1000
            self.needv(i, n, limit=lim)
            if o in ("eq", "less") and i != j and r.random() < .7:
                b = [self.num(1) for _ in range(n)]
                self.setv(i, b)
                b = list(b)
                if r.random() < .7:
                    b[r.randrange(n)] = self.num(2)
                self.setv(j, b)
                if o == "less" and self.z:      # the order of complex vectors is not specified
                    for t in (i, j):
                        self.setv(t, [(self.num(1)[0], 0) for _ in range(n)])
            if o == "less" and self.z and i == j:
                pass
            self.needv(j, n, limit=lim)
            if o == "less" and self.z:
                for t in (i, j):
                    self.setv(t, [(self.num(1)[0], 0) for _ in range(n)])
            if o in ("vadd", "vsub", "vaddto", "vsubto"):
                V[k] = (n, V[i][1] + V[j][1])
            if o == "cross":
                x = r.randint(0, 1)
                V[k] = (n, V[i][1] * V[j][1] * 4)
        elif o == "vaxpy":
            self.needv(i, V[i][0] if i in V else n)
            self.needv(k, V[i][0])
            V[k] = (V[k][0], V[k][1] + 8 * V[i][1])
        elif o in ("vcopy", "vneg", "norm", "vscale", "vlscale", "vscaleto"):
            self.needv(i, V[i][0] if i in V else n, limit=100 if o == "norm" else 1000)
            if o == "vcopy":
                x = r.randint(0, 3)
            if o != "norm":
                V[k] = (V[i][0], V[i][1] * (6 if "scale" in o else 1))
        elif o in ("vdiv", "vdivto", "vdivown"):
            s = (0, 0)
            while s == (0, 0):
                s = self.num(4)
            v = [mul(s, self.num(4)) for _ in range(n)]
            x = r.randrange(n)
            v[x] = s
            self.setv(i, v)
            V[k] = V[i]
        elif o in RECT:
            x = r.choice(BLOCKS)
            if o == "rsolve":
                while k == i:
                    i = r.randint(1, 3)
                q = x // 10
                u = self.unimodular(q)
                self.setm(i, [[u[a][b] if a < q and b < q else self.num(2) for b in range(n)] for a in range(n)])
                self.needm(k, n, n, 50)
                M[k] = (n, n, 400 * M[k][2])
            elif o in ("rmulvec", "rvecmul"):
                for q in (i, j):
                    self.needm(q, n, n, 40); self.needv(q, n, 40)
                V[k] = (n, 4 * max(M[q][2] for q in (i, j)) * max(V[q][1] for q in (i, j)))
            else:
                for q in (i, j):
                    self.needm(q, n, n, 40)
                M[k] = (n, n, 4 * M[i][2] * M[j][2])
        elif o == "vscaleown":
            self.vec(i, n)
            x = r.randrange(n)
            V[k] = (n, 40)
        elif o == "vput":
            self.needv(k, V[k][0] if k in V else n)
            x = r.randrange(V[k][0])
        self.emit(o, k, i, j, s, x)


def mul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def add(a, b):
    return (a[0] + b[0], a[1] + b[1])


def tot(xs):
    t = (0, 0)
    for x in xs:
        t = add(t, x)
    return t


def body(c):
    rng = c.rng
    src = [os.path.join(REPO, "kernel", "LinearAlgebra", f) for f in ("MiddleSizeMatrix.cpp", "MiddleSizeVector.cpp", "SmallVector.cpp")] + [os.path.join(REPO, "kernel", "Logger.cpp")]
    exes = {z: build("linalg_" + v, src + ["linalg.cpp"], v, kernel=False, extra_flags=["-std=gnu++17"]) for z, v in ((False, "real"), (True, "complex"))}
    c.model(tlc("LinAlgMC", LAWS % ("0,1,2" if not THOROUGH else "0,1,2,3", 2)), "laws of the operators, all small 2x2 matrices")
    kinds = [("dyn", 0, False, MAT + VEC + MIX + DYN), ("dyn", 0, True, MAT + VEC + MIX + DYN)]
    for n in (1, 2, 3, 4):
        ops = MAT + VEC + MIX + ["det"] + (["cross"] * 2 if n in (2, 3) else []) + (RECT if n == 4 else [])
        kinds += [("small", n, False, ops), ("smallc", n, True, VEC + (["cross"] * 2 if n in (2, 3) else []))]
    # every operation with every use of two registers
    alls = sorted(set(MAT + VEC + MIX + DYN + RECT + ["det", "cross"]))
    hs, r = gen_histories("LinAlgMC", PROG % (",".join('"%s"' % o for o in alls), 1))
    c.model(r, "operations on two registers")
    progs = {False: [], True: []}
    def add_prog(kind, n, z, todo):
        g = Gen(rng, kind, n, z)
        if kind != "dyn":       # all registers of fixed size have a value
            for q in (1, 2, 3):
                if kind == "small":
                    g.mat(q, n, n)
                else:
                    g.setm(q, [[(0, 0)] * n] * n)
                g.vec(q, n)
        for o, k, i, j in todo:
            g.op(o, k, i, j)
        exe = z if kind == "dyn" else rng.random() < .5
        progs[exe].append("case %s\n%s\nend\n" % (kind if kind == "dyn" else "%s %d" % (kind, n), "\n".join(g.out)))
    for _ in range(60 if THOROUGH else 24):
        add_prog("small", 4, False, [(rng.choice(RECT), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)) for _ in range(14)])
    for kind, n, z, ops in kinds:
        hist = [h[0] for h in hs if h[0][0] in ops]
        for rep in range(3 if THOROUGH else 1):
            rng.shuffle(hist)
            for q in range(0, len(hist), 12):
                add_prog(kind, n, z, hist[q:q + 12])
        for rep in range((60 if THOROUGH else 12) * (3 if kind == "dyn" else 1)):
            add_prog(kind, n, z, [(rng.choice(ops), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)) for _ in range(14)])
    cases = []
    for z in (False, True):
        r = run([exes[z]], stdin="".join(progs[z]), timeout=300)
        lines = r.out.splitlines()
        if r.rc != 0 or len(lines) != len(progs[z]):
            n = max(0, len([l for l in lines if l.endswith("}")]))
            c.violation("a program of linear algebra operations ends abnormally (status %s)" % r.rc, {"program": progs[z][min(n, len(progs[z]) - 1)], "stderr": r.err[-1500:], "complex": z})
            return
        for l, pr in zip(lines, progs[z]):
            k = json.loads(l)
            if "error" in k:
                c.violation("a valid linear algebra operation is refused: " + k["error"], {"program": pr, "complex": z})
                return
            cases.append(k)
    c.sample({"ops": [e["o"] for e in cases[0]["ev"]]})

    def corrupt(cs):
        for k in cs:
            for e in k["ev"][::-1]:
                if e["o"] == "solvev":
                    e["V"][e["k"] - 1][0][0] += 1
                    return [k]
    judge(c, "LinAlgTrace", cases, corrupt=corrupt, label="linear algebra programs", timeout=700)


main("C23", body)
