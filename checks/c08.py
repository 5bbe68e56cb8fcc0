"""C08: merging entities of a mesh (periodic boundaries) identifies exactly what the pairing identifies."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from prep import *

MODEL = "CONSTANTS Steps=%d MaxPairs=%d Which=%d\nSPECIFICATION Spec\nINVARIANTS Sound NodesAreChains\nCHECK_DEADLOCK FALSE\n"


def table(mesh):
    """Coordinate ids and their points, node by node, and the coordinate ids of each element."""
    pts, first = [], []
    for cs in mesh["nodes"]:
        first.append(len(pts))
        pts += cs
    return pts, [[first[n] + c for n, c in e] for e in mesh["elems"]]


def entities(mesh, els):
    dim = mesh["dim"]
    for e in els:
        for tab in (meshgen.FACES, meshgen.EDGES):
            if dim > 1:
                for loc in tab.get((dim, len(e)), []):
                    yield frozenset(e[i] for i in loc)


def pairing(rng, mesh, pts, els, ents):
    """A pairing of coordinates under which no face or edge collapses."""
    n, dim = len(pts), mesh["dim"]
    pos = {p: i for i, p in enumerate(pts)}
    how = rng.random()
    pr = {}
    if how < .55:                                   # opposite boundaries, possibly several directions at once
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(dim)
            L = 2 * mesh["n"][k]
            mv = list(range(dim))
            rot = rng.random() < .3 and dim > 1
            if rot:
                rng.shuffle(mv)
            for i, p in enumerate(pts):
                if p[k] == 0 and rng.random() < .95:
                    q = list(p)
                    q[k] = L
                    if rot:
                        q = [q[j] for j in mv]
                    if tuple(q) in pos:
                        pr[i] = pos[tuple(q)]
    elif how < .8:                                  # several faces onto one
        es = [e for e in set(ents)] or [frozenset([i]) for i in range(n)]
        es.sort(key=sorted)
        t = rng.choice(es)
        for s in rng.sample(es, min(len(es), rng.choice([1, 2, 3]))):
            if len(s) == len(t):
                b = sorted(t)
                rng.shuffle(b)
                for x, y in zip(sorted(s), b):
                    pr.setdefault(x, y)
    else:
        for i in rng.sample(range(n), rng.randint(1, min(n, 6))):
            pr[i] = rng.randrange(n)
    if rng.random() < .3:                           # chains and pairs of a coordinate with itself
        for _ in range(2):
            i = rng.randrange(n)
            pr.setdefault(i, i if rng.random() < .3 else rng.randrange(n))
    for e in ents:
        while e <= set(pr) and len({pr[c] for c in e}) < len(e):
            del pr[rng.choice(sorted(e))]
    items = list(pr.items())
    rng.shuffle(items)
    return items


def history(rng):
    dim = rng.choice([1, 2, 2, 2, 3, 3])
    n = [rng.randint(1, {1: 5, 2: 3, 3: 2}[dim]) for _ in range(dim)]
    kinds = rng.choice(["cube", "simplex", "mixed"])
    if dim == 3 and kinds != "cube":
        n[rng.randrange(3)] = 1
        n[2] = 1
    mesh = meshgen.grid(dim, n, [0] * dim, rng, kinds)
    meshgen.zones(mesh, rng, ["Main", "other", "third"][:rng.randint(1, 3)])
    pts, els = table(mesh)
    ents = list(entities(mesh, els))
    cmds = mesh_lines(mesh) + ["built"]
    merged = False
    for _ in range(rng.randint(1, 5)):
        c = rng.choice(["plan", "plan", "trans", "clean", "copy", "assign", "move", "massign"])
        if c == "plan":
            pr = pairing(rng, mesh, pts, els, ents)
            cmds.append("plan " + " ".join("%d %d" % x for x in pr))
            merged = True
        elif c == "trans":
            k = rng.randrange(dim)
            t = [0] * dim
            t[k] = 2 * n[k] * rng.choice([1, -1])
            if rng.random() < .2 and dim > 1:
                j = rng.randrange(dim)
                t[j] = 2 * rng.choice([-1, 1])
            if not any(t):
                continue
            cmds.append("trans " + " ".join(map(str, t)))
            merged = True
        else:
            cmds.append(c)
    if rng.random() < .5:
        cmds.append("clean")
    return dim, cmds


def periodic(rng):
    """The usual way to a periodic mesh: one translation per direction."""
    dim = rng.choice([2, 2, 3])
    n = [rng.randint(3, {2: 4, 3: 3}[dim]) for _ in range(dim)]
    kinds = rng.choice(["cube", "simplex"])
    if dim == 3 and kinds == "simplex":
        n = [3, 3, 1]
    per = [int(n[k] > 2 and rng.random() < .8) for k in range(dim)]
    mesh = meshgen.grid(dim, n, [0] * dim, rng, kinds)
    cmds = mesh_lines(mesh) + ["built"]
    order = [k for k in range(dim) if per[k]]
    rng.shuffle(order)
    for k in order:
        t = [0] * dim
        t[k] = 2 * n[k] * rng.choice([1, -1])
        cmds.append("trans " + " ".join(map(str, t)))
    cmds += ["clean", "valid", "copy"]
    return dim, cmds


def body(c):
    e = prep_exe()
    c.model(tlc("MergeModel", MODEL % (2, 3 if THOROUGH else 2, 1)), "1D segments, two pairings")
    c.model(tlc("MergeModel", MODEL % (1, 3, 2) if THOROUGH else MODEL % (1, 2, 2)), "two squares, one pairing")
    d = scratch("c08")
    cmds = [history(c.rng) for _ in range(1500 if THOROUGH else 260)] + [periodic(c.rng) for _ in range(150 if THOROUGH else 24)]
    res = run_prep(e, cmds, d)
    cases = [{"ev": ev or [{"c": "error"}], "cmds": cm[1][-8:]} for cm, ev in zip(cmds, res)]
    c.sample({"history": cmds[3][1]})

    def corrupt(cs):
        for x in cs:
            for v in x["ev"]:
                if v["c"] in ("plan", "trans") and len(v["m"]["en"]) > 1:
                    for ent in v["m"]["en"][1]:
                        if len(ent) > 1:
                            ent.pop()
                            return [x]
    judge(c, "MergeTrace", cases, corrupt=corrupt, label="merge histories")


main("C08", body)
