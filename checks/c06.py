"""C06: the mesh file the Preprocessor writes describes the mesh, its distribution and the halo of every part."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from prep import *


def parts(rng, n, np, cells=None):
    how = rng.choice(["random", "blocks", "empty", "one"])
    if how == "random":
        return [rng.randrange(np) for _ in range(n)]
    if how == "blocks":
        return [i * np // n for i in range(n)]
    if how == "empty":
        skip = rng.randrange(np)
        return [rng.choice([p for p in range(np) if p != skip or np == 1]) for _ in range(n)]
    k = rng.randrange(np)
    return [k] * n


ZONES = ["Main", "zone_2", "B", "a-b.c", "x9"]


def case(rng, i, d):
    """A mesh that is generated, or built element by element and possibly made periodic, and then written."""
    out = lambda j: os.path.join(d, "m%d_%d" % (i, j))
    if rng.random() < .35:
        q = random_box(rng, big=THOROUGH)
        cmds = spec_lines(q, os.path.join(d, "s%d" % i))
        dim, per = len(q["n"]), q["per"]
        cells = 1
        for k in q["n"]:
            cells *= k
        n = cells * (1 if not q["tri"] else {2: 2, 3: 5}[dim])
    else:
        dim = rng.choice([1, 2, 2, 2, 3, 3])
        n = [rng.randint(1, {1: 6, 2: 4, 3: 3}[dim]) for _ in range(dim)]
        kinds = rng.choice(["cube", "simplex", "mixed"])
        if dim == 3 and kinds != "cube":
            n[rng.randrange(3)] = 1
            n[2] = min(n[2], 2)
        per = [int((dim == 1 or n[k] > 2) and rng.random() < .5) for k in range(dim)]
        direct = rng.random() < .5 or dim == 1
        mesh = meshgen.grid(dim, n, per if direct else [0] * dim, rng, kinds)
        meshgen.zones(mesh, rng, rng.sample(ZONES, rng.randint(1, 4)))
        cmds = mesh_lines(mesh)
        if not direct:
            for k in range(dim):
                if per[k]:
                    cmds.append("trans " + " ".join(str(2 * n[k] * (j == k)) for j in range(dim)))
            if any(per):
                cmds.append("clean")
        if rng.random() < .2:
            cmds.append(rng.choice(["copy", "assign", "move", "massign"]))
        n = len(mesh["elems"])
    for j in range(2):
        np = rng.choice([1, 2, 3, 4, 7, 11])
        cmds.append("write %s %d %s" % (out(j), np, " ".join(map(str, parts(rng, n, np)))))
    return dim, cmds


def large(rng, i, d, dim, n):
    """More nodes, so that numbers of several digits are written into the space reserved in the header."""
    q = {"n": n, "per": [0] * dim, "tri": 0, "lo": [0] * dim, "h": [1] * dim}
    cmds = spec_lines(q, os.path.join(d, "s%d" % i))
    m = 1
    for k in n:
        m *= k
    for j, np in enumerate([1, 3]):
        cmds.append("write %s %d %s" % (os.path.join(d, "m%d_%d" % (i, j)), np, " ".join(map(str, parts(rng, m, np)))))
    return dim, cmds


def body(c):
    e = prep_exe()
    d = scratch("c06")
    N = 900 if THOROUGH else 300
    cmds = [case(c.rng, i, d) for i in range(N)]
    cmds += [large(c.rng, N, d, 1, [8]), large(c.rng, N + 1, d, 1, [9]), large(c.rng, N + 2, d, 1, [99]), large(c.rng, N + 3, d, 1, [98]),
             large(c.rng, N + 4, d, 2, [9, 9]), large(c.rng, N + 5, d, 1, [1])]
    if THOROUGH:
        cmds += [large(c.rng, N + 6, d, 1, [999]), large(c.rng, N + 7, d, 3, [4, 5, 6])]
    res = run_prep(e, cmds, d)
    cases = []
    for cm, ev in zip(cmds, res):
        ev = ev or [{"c": "error"}]
        for v in ev:
            if v["c"] == "write":
                v["p"] = [x + 1 for x in v["p"]]
                try:
                    v["file"] = parse_mesh_file(v["f"])
                except (ValueError, IndexError, OSError) as x:
                    c.violation("the written mesh file is not in the documented format: %s" % x, {"commands": cm[1][-6:], "file": open(v["f"]).read()[:3000] if os.path.exists(v["f"]) else None})
                    v["c"] = "error"
                v.pop("f")
        cases.append({"ev": [v for v in ev if v["c"] in ("write", "error")]})
    if c.violations:
        return
    c.sample({"commands": cmds[2][1][-4:]})

    def corrupt(cs):
        for x in cs:
            for v in x["ev"]:
                if v["np"] > 1:
                    for el in v["file"]["el"]:
                        if el["sh"]:
                            el["sh"].pop()
                            return [x]
    judge(c, "MeshWriteTrace", cases, corrupt=corrupt, label="written mesh files")


main("C06", body)
