"""C14: evaluation contexts answer for their current selection."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *
from c21 import allowed

CFG = ("CONSTANTS Elements={0,1} Points={%s} Rules<-MCRules RulePoints={%s} Trans={0,1} Unknowns={0,1} Quantities={\"x\",\"xi\",\"jac\",\"v\",\"s\"} Depends<-MCDepends MaxOps=%d\n"
       "%s\nINVARIANT Fresh\nCHECK_DEADLOCK FALSE\n")
EQ = ["v", "d", "s", "sd", "x", "xi", "jac", "jt", "jit", "det", "adet", "mat", "vec"]
FQ = ["v", "d", "bn", "bun", "s", "sd", "x", "xi", "nn", "un", "a", "ll", "lr", "rl", "rr", "vec", "sv", "mat", "el"]


class Script:
    """Commands for one mesh, and the events they stand for."""

    def __init__(self, rng, mesh, path, nu, bases, tables):
        self.rng, self.mesh, self.nu = rng, mesh, nu
        self.dim = mesh["dim"]
        self.vec = any(b.split()[1] in ("nedelec", "ac") for b in bases)
        self.uniform = len(bases) == 1
        self.lines, self.slots = [], []          # slots: what to do with the answer of a line
        self.head = "case %d %s %d" % (self.dim, path, nu)
        self.epoch = 0
        self.refs, self.pending = {}, []
        self.ctx = {}
        self.el = {a: nv for a, nv in tables["el"]}
        self.fa = {f: (nv, l, r) for f, nv, l, r in tables["fa"]}
        for b in bases:
            self.cmd(b)
        self.cmd("coef %d" % rng.randint(1, 10 ** 6))

    def cmd(self, line, slot=None):
        self.lines.append(line)
        self.slots.append(slot)

    def coef(self):
        """other coefficients: the contexts select anew before they are asked"""
        self.flush()
        self.cmd("coef %d" % self.rng.randint(1, 10 ** 6))
        self.epoch += 1
        for s in self.ctx.values():
            s["stale"] = True

    def bases(self, bs):
        self.flush()
        self.uniform = len(bs) == 1
        for b in bs:
            self.cmd(b)
        self.cmd("coef %d" % self.rng.randint(1, 10 ** 6))
        self.epoch += 1
        for s in self.ctx.values():
            s["stale"] = True

    def event(self, kind, k, op, a=0, u=0):
        return {"c": kind, "k": k, "op": op, "a": a, "u": u}

    def new(self, kind, k, internal=False):
        self.cmd("%s %d new%s" % (kind, k, (" %d" % internal) if kind == "F" else ""), self.event(kind, k, "new"))
        self.ctx[k] = {"kind": kind, "el": None, "pt": None, "rule": None, "stale": False, "trs": {0}, "in": internal, "shape": None, "used": set(), "set": False, "n": 1}
        if self.vec:
            self.tr(k, 0, 0)

    def tr(self, k, u, t):
        s = self.ctx[k]
        if u > max(s["trs"]) and s["el"] is not None:
            return False
        s["trs"].add(u)
        if u == 0:
            s["set"] = True
        self.cmd("%s %d tr %d %d" % (s["kind"], k, u, t), self.event(s["kind"], k, "tr", t, u))
        s["used"] = set()
        return True

    def select(self, k, i):
        s = self.ctx[k]
        nv = self.el[i] if s["kind"] == "E" else self.fa[i][0]
        self.cmd("%s %d %s %d" % (s["kind"], k, "el" if s["kind"] == "E" else "face", i), self.event(s["kind"], k, "el", i + 1000 * self.epoch))
        other = s["shape"] is not None and s["shape"] != nv
        s.update(el=i, shape=nv, stale=False, epoch=self.epoch, used=set())
        if other:
            s.update(rule=None)
            if self.rng.random() < .5:
                self.point(k, self.rng.randrange(4))
            else:
                self.rule(k, self.rng.randint(1, 4))

    def point(self, k, i):
        s = self.ctx[k]
        self.cmd("%s %d pt %d" % (s["kind"], k, i), self.event(s["kind"], k, "pt", i))
        s.update(pt=[0, i], used=set())
        if s["kind"] == "E":
            s["rule"] = None

    def rule(self, k, order):
        s = self.ctx[k]
        key = [1, s["shape"], order]
        self.cmd("%s %d rule %d" % (s["kind"], k, order), self.event(s["kind"], k, "rule", key))
        s.update(rule=key, pt=key + [0], used=set(), n=None, at=len(self.lines) - 1)

    def frule(self, k, order):
        s = self.ctx[k]
        sides = [(f, sd) for f, (nv, l, r) in self.fa.items() for sd, e in ((0, l), (1, r)) if e == s["el"]]
        f, sd = self.rng.choice(sides)
        key = [2, f, sd, order]
        self.cmd("E %d frule %d %d %d" % (k, f, sd, order), self.event("E", k, "rule", key))
        s.update(rule=key, pt=key + [0], used=set())

    def qp(self, k, i):
        s = self.ctx[k]
        if s["rule"] is None or s["stale"]:
            return False
        i %= npoints(self.dim, s, self.fa)
        self.cmd("%s %d qp %d" % (s["kind"], k, i), self.event(s["kind"], k, "qp", i))
        s.update(pt=s["rule"] + [i], used=set())
        return True

    def ask(self, k, count):
        s = self.ctx[k]
        if s["el"] is None or s["pt"] is None or s["stale"]:
            return
        internal = s["kind"] == "F" and self.fa[s["el"]][2] >= 0
        qs = list(EQ if s["kind"] == "E" else FQ)
        if self.vec:
            qs = [q for q in qs if q not in ("s", "sd") and not (q == "bn" and self.dim == 2)]
        for w in self.rng.sample(qs, min(count, len(qs))):
            u = self.rng.randint(-1 if self.uniform and w in ("v", "d", "bn", "bun") else 0, self.nu - 1)
            sd = self.rng.choice([-1, 0, 1] if w in ("v", "d", "bn", "bun") else [0, 1])
            if not internal and sd == 1:
                sd = 0
            if w in ("lr", "rl", "rr") and not internal:
                continue
            if w == "el":
                u = self.rng.randrange(3)
            store = {"mat": {"mat"}, "vec": {"vec"}, "ll": {"ll", "lv"}, "rr": {"rr"}, "lr": {"lr"}, "rl": {"rl"}, "sv": {"v%d" % sd}}.get(w, set())
            if store & s["used"]:
                continue
            s["used"] |= store
            r = self.ref(s)
            if s["kind"] == "E":
                self.cmd("E %d get %s %d" % (k, w, u), {"c": "E", "k": k, "op": "get", "w": w, "u": u, "sd": 0, "r": r, "a": 0})
            else:
                self.cmd("F %d get %s %d %d" % (k, w, u, sd), {"c": "F", "k": k, "op": "get", "w": w, "u": u, "sd": sd, "r": r, "a": 0})

    def ref(self, s):
        key = (s["kind"], s["el"] + 1000 * s["epoch"]) + tuple(s["pt"])
        if key not in self.refs:
            self.refs[key] = len(self.refs) + 1
            p = s["pt"]
            at = {0: "pt", 1: "q", 2: "f"}[p[0]]
            self.pending.append(("ref%s %d %s %s" % (s["kind"], s["el"], at, " ".join(map(str, p[1:]))), key))
        return self.refs[key]

    def flush(self):
        for line, key in self.pending:
            self.cmd(line, key)
        self.pending = []

    def finish(self):
        self.flush()
        return [self.head] + self.lines + ["end"]

    def trace(self, res):
        """events and table from the answers"""
        ev, ref = [], [None] * len(self.refs)
        r = res["r"]
        for slot, val in zip(self.slots, r):
            if isinstance(slot, tuple):
                ref[self.refs[slot] - 1] = {"c": slot[0], "k": list(slot[1:]), "v": val}
            elif isinstance(slot, dict):
                ev.append(dict(slot, val=val) if slot["op"] == "get" else slot)
        if "error" in res:
            ev.insert(0, {"c": "E", "k": 0, "op": "error", "what": res["error"], "a": 0, "u": 0})
        return {"ref": [x if x is not None else {"c": "E", "k": [], "v": 0} for x in ref], "ev": ev}


POINTS = {}


def npoints(dim, s, fa):
    """number of points of the rule in use (table filled by the first run)"""
    r = s["rule"]
    fd = dim - 1 if s["kind"] == "F" or r[0] == 2 else dim
    nv = r[1] if r[0] == 1 else fa[r[1]][0]
    return POINTS[(fd, nv, r[-1])]


def run_lines(e, d, blocks, name):
    ctl, outp = os.path.join(d, name + ".ctl"), os.path.join(d, name + ".out")
    open(ctl, "w").write("\n".join(l for b in blocks for l in b) + "\n")
    r = run([e, ctl, outp], timeout=300, cwd=d)
    try:
        ls = [json.loads(l) for l in open(outp).read().splitlines() if l.endswith("}")]
    except (OSError, ValueError):
        raise CheckError("no answers: " + (r.out + r.err)[-2000:])
    if len(ls) < len(blocks):
        ls.append({"r": [], "error": "crash: " + (r.out + r.err)[-500:]})
    return ls


def choose_bases(rng, mesh, nu):
    ok = allowed(mesh)
    shapes = {len(x) for x in mesh["elems"]}
    dim = mesh["dim"]
    if (dim == 2 and shapes == {3} or dim == 3 and shapes == {4}) and rng.random() < .35:
        return ["basis %s %d -1" % (rng.choice(["nedelec", "ac"] if dim == 3 else ["nedelec"]), 1)]
    def one(kind):
        return "%s %d" % (kind, rng.randint(0 if kind == "dg" else 1, min(ok[kind], 2 if dim == 3 else 3)))
    if rng.random() < .15:
        return ["basis mono %d -1" % rng.randint(1, 2)]
    bs = ["basis %s -1" % one("dg")]
    for u in range(nu):
        if rng.random() < .8:
            bs.append("basis %s %d" % (one(rng.choice(["dg", "conf"]) if u else "conf"), u))
    return bs


def body(c):
    e = build("evalctx", ["evalctx.cpp"], "real")
    c.model(tlc("EvalContextMC", CFG % ("0,1", "0,1", 5 if THOROUGH else 4, "SPECIFICATION Spec\nVIEW View")), "contexts never answer for an earlier selection")
    n = 2500 if THOROUGH else 800
    hs, r = gen_histories("EvalContextMC", CFG % ("0,1,2", "0,1,2", 9, "SPECIFICATION Quiet\nCONSTRAINT Emit"), args=["-simulate", "num=%d" % n, "-depth", "10", "-seed", str(SEED)], workers=1)
    if len(hs) < n // 2:
        raise CheckError("histories: " + r.out[-1500:])
    rng = c.rng
    d = scratch("c14")
    meshes = []
    for i in range(120 if THOROUGH else 49):
        dim = [1, 2, 2, 3, 3, 3, 3][i % 7]
        kinds = {1: [None], 2: ["mixed", "simplex", None], 3: ["mixed", "prism", "simplex", "cube", "pyr"]}[dim]
        mesh = random_mesh(rng, dim, 1, kinds=kinds[(i // 7 + i) % len(kinds)], small=True)
        if rng.random() < .7:
            meshgen.distort(mesh, rng)
        f = os.path.join(d, "m%d.hpgem" % i)
        meshgen.write(mesh, f, 2)
        meshes.append((mesh, f))
    ls = run_lines(e, d, [["case %d %s 1" % (m["dim"], f), "basis dg 1 -1", "list", "end"] for m, f in meshes], "list")
    for x in ls:
        if "error" in x:
            c.violation("reading a mesh failed", {"error": x["error"]})
            return
    tabs = [x["r"][1] for x in ls]
    # sizes of the rules
    probe = []
    want = []
    for (m, f), t in zip(meshes, tabs):
        b = ["case %d %s 1" % (m["dim"], f), "basis dg 1 -1", "E 0 new", "F 0 new 0", "F 1 new 1"]
        w = [None] * 4
        seen = set()
        for i, nv in t["el"]:
            if nv not in seen:
                seen.add(nv)
                b.append("E 0 el %d" % i); w.append(None)
                for o in range(1, 5):
                    b.append("E 0 rule %d" % o); w.append((m["dim"], nv, o))
        seen = set()
        for i, nv, l, rr in t["fa"]:
            if nv not in seen:
                seen.add(nv)
                b.append("F %d face %d" % (rr >= 0, i)); w.append(None)
                for o in range(1, 5):
                    b.append("F %d rule %d" % (rr >= 0, o)); w.append((m["dim"] - 1, nv, o))
        probe.append(b + ["end"])
        want.append(w)
    for x, w in zip(run_lines(e, d, probe, "probe"), want):
        if "error" in x:
            c.violation("selecting quadrature rules failed", {"error": x["error"]})
            return
        for key, v in zip(w, x["r"]):
            if key:
                POINTS[key] = v
    scripts = []
    per = (len(hs) + len(meshes) - 1) // len(meshes)
    for i, ((m, f), t) in enumerate(zip(meshes, tabs)):
        nu = rng.choice([1, 2, 2, 3])
        s = Script(rng, m, f, nu, choose_bases(rng, m, nu), t)
        ids = sorted(s.el)
        inner = [x for x in s.fa if s.fa[x][2] >= 0]
        outer = [x for x in s.fa if s.fa[x][2] < 0]
        # behaviours of the specification, for elements and for faces
        for j, h in enumerate(hs[i * per:(i + 1) * per]):
            kind = "EFF"[j % 3]
            pool = ids if kind == "E" else rng.choice([x for x in (inner, outer) if x])
            two = [rng.choice(pool), rng.choice(pool)]
            s.new(kind, 0, kind == "F" and pool is inner)
            for o in h:
                if o["op"] == "el":
                    s.select(0, two[o["a"]])
                elif o["op"] == "pt":
                    s.point(0, o["a"])
                elif o["op"] == "rule":
                    if kind == "E" and rng.random() < .3:
                        s.frule(0, o["a"][2])
                    else:
                        s.rule(0, 2 * o["a"][2] - 1)
                elif o["op"] == "qp":
                    s.qp(0, o["a"])
                elif o["u"] < nu:
                    s.tr(0, o["u"], o["a"])
                s.ask(0, rng.choice([0, 1, 2, 4]))
            s.ask(0, 6)
        # several contexts side by side, in long histories
        s.new("E", 0); s.new("E", 1)
        s.new("F", 2, bool(inner)); s.new("F", 3, not outer)
        pools = {0: ids, 1: ids, 2: inner or outer, 3: outer or inner}
        for k in range(4):
            if rng.random() < .5 and nu > 1:
                s.tr(k, rng.randrange(1, nu), 1)
        for _ in range(400 if THOROUGH else 120):
            if rng.random() < .03:
                if rng.random() < .5:
                    s.coef()
                elif not s.vec:
                    bs = choose_bases(rng, m, nu)
                    if not any(x in b for b in bs for x in ("nedelec", "ac ")):
                        s.bases(bs)
            k = rng.randrange(4)
            cx = s.ctx[k]
            x = rng.random()
            if cx["el"] is None or cx["stale"] or x < .25:
                s.select(k, rng.choice(pools[k]))
            elif x < .4:
                s.point(k, rng.randrange(4))
            elif x < .55 or cx["pt"] is None:
                if cx["kind"] == "E" and rng.random() < .4:
                    s.frule(k, rng.randint(1, 4))
                else:
                    s.rule(k, rng.randint(1, 4))
            elif x < .8:
                s.qp(k, rng.randrange(30))
            elif x < .88:
                s.tr(k, rng.randrange(nu), rng.randrange(2))
            s.ask(k, rng.choice([0, 1, 1, 3, 8]))
        scripts.append(s)
    rs = run_lines(e, d, [s.finish() for s in scripts], "ctx")
    cases = [s.trace(x) for s, x in zip(scripts, rs)]
    c.sample({"answers": sum(1 for x in cases for v in x["ev"] if v["op"] == "get"), "selections": sum(len(x["ref"]) for x in cases)})

    def corrupt(cs):
        for x in cs:
            for v in x["ev"]:
                if v["op"] == "get" and v["w"] in ("v", "x") and v["val"]:
                    v["val"][0] += 3
                    return [x]
    judge(c, "EvalContextTrace", cases, corrupt=corrupt, label="answers of evaluation contexts", timeout=700)


main("C14", body)
