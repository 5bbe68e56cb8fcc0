"""C16: element and face data storage returns the last value stored."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *


def cfg(n, which, emit):
    return ("CONSTANTS MaxOps = %d\n Which = \"%s\"\nSPECIFICATION Spec\n" % (n, which)) + \
        ("CONSTRAINT Emit\n" if emit else "INVARIANTS LastWrite Untouched Blocks\nPROPERTY Frame\n")


class Gen:
    """Random valid writes; keeps only the shapes needed to stay within preconditions."""

    def __init__(self, rng, ne, nf, nu, tl):
        self.rng, self.ne, self.nf, self.nu, self.tl = rng, ne, nf, nu, tl
        self.fm = {}
        self.size = {}
        self.iv = {k: 0 for k in range(1, ne + 1)}
        self.em = {}
        self.w = 0
        self.n = None

    def el(self):
        r, k = self.rng, self.rng.randint(1, self.ne)
        n = self.n[k - 1]
        nz = [u for u in range(self.nu) if n[u] > 0]
        op = r.choice(["tld", "tls", "tlv", "tlr", "ivn", "ivd", "ivs", "ivv", "ivr", "ivd", "ivs", "em", "emr", "ev"])
        t = r.randrange(self.tl)
        if op[:2] == "iv" and op != "ivn":
            if self.iv[k] == 0:
                op = "ivn"
            else:
                t = r.randrange(self.iv[k])
        u = r.choice(nz)
        if op in ("tld", "ivd"):
            a = [t, u, r.randrange(n[u])]
        elif op in ("tls", "ivs"):
            a = [t, r.randrange(self.nu)]
        elif op in ("tlv", "ivv"):
            a = [t]
        elif op in ("tlr", "ivr"):
            a = [t, r.randrange(sum(n))]
        elif op == "ivn":
            self.iv[k] = r.randint(1, 3)
            a = [self.iv[k]]
        elif op == "emr":
            c = [i for (kk, i) in self.em if kk == k]
            if not c:
                return self.el()
            i = r.choice(c)
            a = [i, r.randrange(self.em[k, i][0]), r.randrange(self.em[k, i][1])]
        elif op == "em":
            i = r.randint(0, 3)
            self.em[k, i] = (r.randint(1, 3), r.randint(1, 3))
            a = [i] + list(self.em[k, i])
        else:
            a = [r.randint(0, 3), r.randint(1, 4)]
        return op, k, a

    def fa(self):
        r, k = self.rng, self.rng.randint(1, self.nf)
        have = [i for (kk, i) in self.fm if kk == k]
        op = r.choice(["fm", "fmm", "fv", "fr"] if not have else
                      ["fm", "fmm", "fmw", "fms", "fms", "fmr", "fme", "fmE", "fme", "fmE", "fmx", "fmp", "fmt", "fmc", "fma", "fmz", "fv", "fr"])
        i = r.choice(have) if have else r.randint(0, 3)
        if op == "fm":
            i = r.randint(0, 3)
            d = (r.randint(1, 3), r.randint(0, 3))
            self.fm[k, i] = d
            self.size[k, i] = 2
            return op, k, [i] + list(d)
        if op == "fmm":
            i = r.randint(0, 3)
            d = r.randint(1, 2)
            self.fm[k, i] = (d, d)
            self.size[k, i] = 2
            return op, k, [i, d]
        if op == "fv":
            return op, k, [r.randint(0, 3), r.randint(1, 4)]
        if op == "fr":
            return op, k, [r.randint(1, 4)]
        d = self.fm[k, i]
        side = [0, 1] if d[1] else [0]
        s, t = r.choice(side), r.choice(side)
        if op == "fmw":
            self.size[k, i] = 2
            return op, k, [i]
        if op in ("fms", "fmr"):
            return op, k, [i, s, t]
        if op == "fme":
            return op, k, [i, r.randrange(sum(d)), r.randrange(sum(d))]
        if op == "fmE":
            return op, k, [i, s, t, r.randrange(d[s]), r.randrange(d[t])]
        same = [j for j in have if self.fm[k, j] == d]
        if op in ("fmx", "fmp"):
            j = r.choice(same)
            if self.size[k, i] + self.size[k, j] > 60 or (op == "fmx" and j == i):
                return self.fa()
            a = r.randint(-3, 3)
            self.size[k, i] += self.size[k, j] * (1 if op == "fmp" else abs(a))
            return op, k, [i, j] + ([a] if op == "fmx" else [])
        if op == "fmt":
            if self.size[k, i] > 20:
                return self.fa()
            a = r.randint(-2, 3)
            self.size[k, i] *= max(1, abs(a))
            return op, k, [i, a]
        if op == "fmc":
            j = i
            i = r.randint(0, 3)
            self.fm[k, i] = self.fm[k, j]
            self.size[k, i] = self.size[k, j]
            return op, k, [i, j]
        if op == "fma":
            j = r.choice(have)
            self.fm[k, i] = self.fm[k, j]
            self.size[k, i] = self.size[k, j]
            return op, k, [i, j]
        dd = (r.randint(1, 3), r.randint(0, 3))
        self.fm[k, i] = dd
        self.size[k, i] = 2
        return "fmz", k, [i] + list(dd)

    def line(self, x):
        self.w += 1
        op, k, a = x
        return "st %s %d %d %s" % (op, k, self.w % 9000 + 1, " ".join(map(str, a)))


def body(c):
    e = exe()
    rng = c.rng
    c.model(tlc("Storage", cfg(3, "element", False)), "element writes: last write wins")
    c.model(tlc("Storage", cfg(2 if not THOROUGH else 3, "face", False)), "face matrix writes: blocks and frame")
    hs = {}
    for w in ("element", "face"):
        hs[w], r = gen_histories("Storage", cfg(2, w, True))
        c.model(r, w + " histories")
    d = scratch("c16")
    # the sizes of the bases have to be known for generating valid writes: first a run that records them
    plans = []
    b0 = Batch(1, d)

    def plan(dim, kinds, nu, tl, phases):
        mesh = random_mesh(rng, dim, 1, small=True, kinds=kinds)
        while len(mesh["elems"]) > 4:
            mesh = random_mesh(rng, dim, 1, small=True, kinds=kinds)
        cm = [small_bases(rng, nu, mesh) for _ in range(phases)]
        cmds = []
        for x in cm:
            cmds += x + ["conv"]
        b0.add(mesh, cmds, nu=nu, tl=tl)
        plans.append((mesh, cm, nu, tl))
    for i in range(60 if THOROUGH else 20):
        plan(rng.choice([1, 2, 2, 3]), None, rng.randint(1, 3), rng.randint(1, 3), rng.choice([1, 1, 2, 3]))
    nrand = len(plans)
    rs = run_batches(c, e, [b0], "assigning bases failed")
    if rs is None:
        return
    b = Batch(1, d)
    meta = []
    for (mesh, cm, nu, tl), (_, _, evs) in zip(plans, rs):
        convs = [[x["n"] for x in ev["r"][0]["el"]] for ev in evs if ev["c"] == "conv"]
        g = Gen(rng, len(mesh["elems"]), len(mesh["faces"]), nu, tl)
        cmds = []
        for ph, bases in enumerate(cm):
            cmds += bases + ["faces2"]
            g.n = convs[ph]
            for _ in range(70 if THOROUGH else 40):
                cmds.append(g.line(g.el() if rng.random() < .5 else g.fa()))
        b.add(mesh, cmds, nu=nu, tl=tl)
        meta.append((convs, tl))
    # the histories of the model: one line element with functions (1, 2): unknown 0 constant, unknown 1 linear
    m1 = meshgen.grid(1, [2], [False], rng, kinds="mixed")
    meshgen.partition(m1, 1, rng, "blocks")
    for w in ("element", "face"):
        h = hs[w]
        rng.shuffle(h)
        per = 90
        for i in range(0, len(h), per):
            n = 0
            cmds = ["basis dg 0 -1", "basis dg 1 1", "faces2", "st ivn 1 1 2", "st ivn 2 1 2"]
            for x in h[i:i + per]:
                if w == "face":
                    cmds += ["st fm 1 90 0 1 2", "st fm 1 91 1 1 2"]
                for o in x:
                    n += 1
                    cmds.append("st %s %d %d %s" % (o["op"], o["k"], n, " ".join(map(str, o["a"]))))
            b.add(m1, cmds, nu=2, tl=2)
            meta.append(([[[1, 2], [1, 2]]], 2))
    rs = run_batches(c, e, [b], "storing data failed")
    if rs is None:
        return
    cases = []
    for (_, case, evs), (convs, tl) in zip(rs, meta):
        out, ph = [], 0
        for x in evs:
            if x["c"] == "basis":
                continue
            y = dict(x["r"][0], c=x["c"])
            if x["c"] == "st":
                y.update(op=x["a"][0], k=int(x["a"][1]), n=int(x["a"][2]), a=[int(v) for v in x["a"][3:]])
            out.append(y)
            if x["c"] == "faces2":
                out.append({"c": "first" if ph == 0 else "rebase", "n": convs[ph], "tl": tl})
                ph += 1
        cases.append({"ev": out})
    c.sample({"commands": rs[0][1]["commands"][:25]})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "st" and ev["op"] == "ivs":
                    u = ev["a"][1]
                    q = ev["el"][ev["k"] - 1]["iv"][ev["a"][0]]["p"][u]
                    if q:
                        q[-1] += 1
                        return [x]
    judge(c, "StorageTrace", cases, corrupt=corrupt, label="stored data")


main("C16", body)
