"""Shared by the checks of the Preprocessor (C06, C07, C08)."""
import glob
from vlib import *
import meshgen


def prep_exe():
    lib = os.path.join(REPO, "applications/Preprocessor/lib")
    return build("prep", ["prep.cpp"] + sorted(glob.glob(lib + "/**/*.cpp", recursive=True)), "plain", extra_inc=[lib])


def run_prep(exe, cases, d, timeout=300, shards=None):
    """cases: [(dim, [lines])]. Returns a list of recorded event lists (None where the process died)."""
    n = shards or JOBS
    parts = [list(range(i, len(cases), n)) for i in range(n)]

    def one(idx):
        if not idx:
            return []
        i0 = idx[0]
        wd = os.path.join(d, "w%d" % i0)
        os.makedirs(wd, exist_ok=True)
        out = {}
        todo = list(idx)
        while todo:
            ctl = os.path.join(wd, "control")
            with open(ctl, "w") as f:
                for i in todo:
                    f.write("case %d\n%s\nend\n" % (cases[i][0], "\n".join(cases[i][1])))
            r = run([exe, "--outFile", os.path.join(wd, "written")], cwd=wd, env={"PREP_CONTROL": ctl}, timeout=timeout)
            got = []
            for l in r.out.splitlines():
                try:
                    got.append(json.loads(l)["ev"])
                except ValueError:
                    break
            for i, ev in zip(todo, got):
                out[i] = ev
            if len(got) >= len(todo):
                break
            bad = todo[len(got)]
            out[bad] = [{"c": "error", "at": "?", "what": "process ended with %s %s" % (r.rc, r.err[-300:])}]
            todo = todo[len(got) + 1:]
        return sorted(out.items())
    with cf.ThreadPoolExecutor(n) as ex:
        res = dict(x for r in ex.map(one, parts) for x in r)
    return [res.get(i) for i in range(len(cases))]


def spec_lines(q, path):
    """Write a structured mesh description with the given grid (units of 1/8)."""
    hi = [l + n * h for l, n, h in zip(q["lo"], q["n"], q["h"])]
    dec = lambda v: repr(v / 8.0)
    with open(path, "w") as f:
        f.write("structured 1 %d\n%s\n%s\n%s\n%s\n%s\n" % (
            len(q["n"]), " ".join(map(str, q["n"])), " ".join(map(dec, q["lo"])), " ".join(map(dec, hi)),
            "triangular" if q["tri"] else "rectangular", " ".join("true" if p else "false" for p in q["per"])))
    return ["struct " + path]


def mesh_lines(mesh):
    """Commands that build a meshgen mesh; coordinate ids are numbered node by node."""
    out, first, k = [], [], 0
    for cs in mesh["nodes"]:
        first.append(k)
        k += len(cs)
        out.append("node %d %s" % (len(cs), " ".join(str(v) for c in cs for v in c)))
    for e, z in zip(mesh["elems"], mesh["zone"]):
        out.append("elem %s %s" % (mesh["zones"][z], " ".join(str(first[n] + c) for n, c in e)))
    return out


def parse_mesh_file(path):
    """The documented format (MESHING.md), numbers from 1."""
    L = open(path).read().split("\n")
    pos = [0]

    def line():
        pos[0] += 1
        return L[pos[0] - 1]

    def ints(s):
        return [int(x) for x in s.split()]
    head = line().split()
    if head[0] != "mesh" or head[1] not in ("1", "2"):
        raise ValueError("header")
    version = int(head[1])
    h = ints(line())
    t = ints(line())
    f = {"nn": h[0], "ne": h[1], "dim": h[2], "cnt": h[3:], "np": t[0], "tot": t[1:], "zones": [], "nodes": [], "el": [], "en": []}

    def word(w):
        if version > 1 and line().strip() != w:
            raise ValueError("expected " + w)
    if version > 1:
        word("zones")
        n = int(line())
        f["zones"] = [line() for _ in range(n)]
    word("nodes")
    for _ in range(f["nn"]):
        p = ints(line())
        x = line().split()
        k = int(x[0])
        v = [float.fromhex(y) * 8 for y in x[1:]]
        if len(p) != p[0] + 1 or len(v) != k * f["dim"]:
            raise ValueError("node")
        v = [int(y) if y == int(y) else -99999998 for y in v]
        f["nodes"].append({"p": [y + 1 for y in p[1:]], "x": [v[i * f["dim"]:(i + 1) * f["dim"]] for i in range(k)]})
    word("elements")
    for _ in range(f["ne"]):
        a = ints(line())
        n = a[0]
        own = a[1 + 2 * n]
        k = a[2 + 2 * n]
        if len(a) != 3 + 2 * n + k:
            raise ValueError("element")
        z = int(line()) + 1 if version > 1 else 0
        f["el"].append({"n": [[a[1 + 2 * i] + 1, a[2 + 2 * i] + 1] for i in range(n)], "own": own + 1, "sh": [y + 1 for y in a[3 + 2 * n:]], "z": z})
    for cd in range(1, f["dim"]):
        word("codim%d" % cd)
        ents = []
        for _ in range(f["cnt"][cd - 1]):
            a = ints(line())
            n = a[0]
            k = a[1 + 2 * n]
            if len(a) != 2 + 2 * n + k:
                raise ValueError("entity")
            ents.append({"u": [[a[1 + 2 * i] + 1, a[2 + 2 * i] + 1] for i in range(n)], "p": [y + 1 for y in a[2 + 2 * n:]]})
        f["en"].append(ents)
    if [x for x in L[pos[0]:] if x.strip()]:
        raise ValueError("text after the last entity")
    return f


def random_box(rng, dim=None, big=False, maxper=None):
    """A structured mesh description that fits (README: even number of cells for periodic simplices)."""
    dim = dim or rng.choice([1, 2, 2, 3, 3])
    tri = int(dim > 1 and rng.random() < .5)
    top = {1: 9, 2: 6, 3: 4}[dim] + (2 if big else 0)
    per = [rng.randint(0, 1) for _ in range(dim)]
    n = []
    for k in range(dim):
        if per[k]:
            lo = 1 if dim == 1 else 3
            c = [i for i in range(lo, top + 1) if not (tri and i % 2)]
            n.append(rng.choice(c))
        else:
            n.append(rng.randint(1, top))
    if dim == 3 and tri and n[0] * n[1] * n[2] > 48:
        for k in range(3):
            if not per[k]:
                n[k] = min(n[k], 2)
    return {"n": n, "per": per, "tri": tri, "lo": [rng.randint(-9, 9) for _ in range(dim)], "h": [rng.randint(1, 5) for _ in range(dim)]}
