"""C38: shallow granular flow: exchange over faces, mass and limiters."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from flow import *

CFG = "CONSTANTS A = %d U = %d Cells = %d\nSPECIFICATION Spec\nINVARIANTS Consistent Antisymmetric Upwind Wall Kept\nCHECK_DEADLOCK FALSE\n"


def mesh_for(rng, dim, np_, periodic, ordered=False, kind=None):
    n = [rng.randint(3, 6)] if dim == 1 else [rng.randint(3, 4), rng.randint(3, 4)] if periodic else [rng.randint(1, 4), rng.randint(1, 3)]
    m = meshgen.grid(dim, n, [periodic] * dim, rng, (kind or rng.choice(["cube", "simplex", "mixed"])) if dim == 2 else "cube", rotate=not ordered, permute=not ordered)
    f = [rng.choice([1, 2, 3])] if dim == 1 else [4, 3]
    m["nodes"] = [[tuple(x * s for x, s in zip(p, f)) for p in ps] for ps in m["nodes"]]
    meshgen.zones(m, rng, ["Main"])
    meshgen.partition(m, np_, rng, rng.choice(["random", "blocks"]))
    return m


def as_case(case, evs):
    mesh = case["mesh"]
    t = file_tables(mesh)["el"]
    ne = len(mesh["elems"])
    out = []
    for e in evs:
        y = {"c": e["c"]}
        R = e["r"]
        if "el" in R[0]:
            el = [None] * ne
            for r in R:
                for x in r["el"]:
                    k = t.get(frozenset(tuple(p) for p in x.pop("co")), 0)
                    if not k:
                        raise CheckError("element without counterpart in the file")
                    el[k - 1] = x
            if None in el:
                raise CheckError("element owned by nobody")
            y["el"] = el
        else:
            y["mass"] = R[0]["mass"]
        if e["c"] == "rhs":
            y["x"] = [int(v) for v in e["a"]]
        if e["c"] == "lim":
            y["kind"], y["low"] = e["a"][0], int(2048 * float(e["a"][1]))
        out.append(y)
    nb = [[0, 0] for _ in range(ne)]
    fa = faces(mesh)
    if mesh["dim"] == 1:
        for f in fa:
            if len(f["e"]) == 2:
                for a, b, s in ((0, 1, 1), (1, 0, -1)):
                    nb[f["e"][a] - 1][1 if s * f["n"][0] > 0 else 0] = f["e"][b]
    return {"dim": mesh["dim"], "m": [measure(mesh, k) for k in range(ne)], "fa": fa, "nb": nb, "ev": out}


def body(c):
    c.model(tlc("ShallowFlowMC", CFG % ((3, 3, 3) if THOROUGH else (2, 2, 2))), "fluxes of all pairs of small states, exchange around a ring")
    rng = c.rng
    e = flow_exe()
    bs = [FlowBatch(k, scratch("c38_%d" % k)) for k in (1, 2)]
    for i in range(240 if THOROUGH else 64):
        b = rng.choice(bs)
        dim = rng.choice([1, 2])
        periodic = rng.random() < .5
        order = rng.randint(0, 2)
        m = mesh_for(rng, dim, b.np, periodic)
        a = rng.randint(1, 3)
        cmds = ["rhs %d %d %d" % (a, a + rng.randint(1, 2) if dim == 2 else rng.randint(-2, 5), rng.randint(-2, 2) if dim == 2 else 0)]
        if periodic and order < (2 if dim == 1 else 1):      # there is no limiter in two dimensions
            cmds.append("run 4 %d" % rng.choice([256, 512, 1024]))
        b.add(m, order, 0 if periodic else 1, cmds, seed=rng.randrange(1 << 20))
    for i in range(80 if THOROUGH else 24):
        b = rng.choice(bs)
        kind = rng.choice(["layer", "avg", "avg2", "tvb"])
        dim = 2 if kind == "avg2" else 1
        b2 = bs[0] if kind == "tvb" else b
        m = mesh_for(rng, dim, b2.np, kind != "tvb" and rng.random() < .5, ordered=kind == "tvb", kind="cube")    # averages are those of rectangles (documented)
        b2.add(m, 1, 0, ["lim %s %g" % (kind[:3] if kind != "layer" else kind, rng.choice([.25, 1.25, 2.25]))], seed=rng.randrange(1 << 20))
    rs = run_batches(c, e, bs, "computing a shallow flow failed")
    if rs is None:
        return
    cases = [as_case(case, evs) for _, case, evs in rs]
    c.sample({"commands": rs[-1][1]["commands"], "np": rs[-1][0].np})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "rhs":
                    ev["el"][0]["m"][0][0] += 400
                    return [x]
    judge(c, "ShallowFlowTrace", cases, corrupt=corrupt, label="time derivatives, masses and limiters")


main("C38", body)
