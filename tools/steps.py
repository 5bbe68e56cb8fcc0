"""Running the time stepping harness."""
from dist import *
import meshgen


def steps_exe(variant="plain"):
    return build("steps", ["steps.cpp", "jitter.cpp"], variant)


def tableau(rng, emb):
    s = rng.randint(1, 3)
    a = [[rng.choice([-1, 0, 1, 1, 2]) if j < i else 0 for j in range(s)] for i in range(s)]
    return {"s": s, "emb": emb, "a": a, "b": [rng.choice([-1, 1, 1, 2, 0]) for _ in range(s)],
            "c": [rng.choice([0, 1, 1, 2]) for _ in range(s)], "e": [rng.choice([-1, 0, 1, 2]) for _ in range(s)]}


def neighbours(mesh):
    """Per element the neighbours over its facets, 0 at the boundary."""
    ents = mesh["faces"]
    if mesh["dim"] == 1:
        ents = [[] for _ in mesh["nodes"]]
        for k, e in enumerate(mesh["elems"]):
            for l, (n, _) in enumerate(e):
                ents[n].append((k, l))
    nb = [[] for _ in mesh["elems"]]
    for inc in ents:
        es = [e for e, _ in inc]
        if len(es) == 1:
            nb[es[0]].append(0)
        else:
            nb[es[0]].append(es[1] + 1)
            nb[es[1]].append(es[0] + 1)
    return nb


class StepBatch(Batch):
    def add(self, mesh, commands, nu=1, order=1, both=0, tab=None, jitter=0, seed=0, tag=None):
        i = len(self.cases)
        f = os.path.join(self.d, "s%d_%d.hpgem" % (self.np, i))
        meshgen.write(mesh, f)
        t = tab
        nums = [x for r in t["a"] for x in r] + t["b"] + t["c"] + t["e"]
        self.lines += ["case %d %d %d %s %d %d %d %d %d %s" % (mesh["dim"], seed, jitter, f, nu, order, both, t["s"], t["emb"], " ".join(map(str, nums)))]
        commands = ["info"] + list(commands)
        self.lines += commands + ["end"]
        self.cases.append({"mesh": mesh, "commands": commands, "tab": t, "tag": tag})


def as_case(case, evs):
    """Events with numbers for arguments and file indices for element identifiers."""
    mesh = case["mesh"]
    t = file_tables(mesh)["el"]
    kof, el = {}, [None] * len(mesh["elems"])
    nb = neighbours(mesh)
    for R in evs[0]["r"]:
        for x in R["el"]:
            k = t.get(frozenset(tuple(p) for p in x["co"]), 0)
            if not k:
                raise CheckError("element without counterpart in the file")
            kof[x["id"]] = k
            el[k - 1] = {"id": x["id"] % 1000, "n": x["n"], "nb": nb[k - 1]}
    if None in el:
        raise CheckError("element owned by nobody")
    out = []
    for e in evs[1:]:
        y = {"c": e["c"], "x": [int(v) for v in e["a"]], "r": [], "o": 1}
        for R in e["r"]:
            R = dict(R)
            R.pop("c")
            if "v" in R:
                # owned elements first: the specification counts them there
                R["v"] = sorted(([kof[i], o, vs] for i, o, vs in R["v"]), key=lambda z: -z[1])
            y["r"].append(R)
        out.append(y)
    nv = case["tab"]["s"] + 1
    seen = set()
    for y in out:              # vectors that have never been written have no defined value
        if len(seen) < nv and y["c"] == "setv":
            seen.add(y["x"][0])
        if len(seen) < nv:
            y["o"] = 0
    return {"m": el, "tab": case["tab"], "ev": out}
