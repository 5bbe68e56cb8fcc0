"""C30: the default initial solution is the projection, exact for polynomials, and the default errors are exact norms."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from linear import *

CFG = "CONSTANTS NE=%d NP=3 MaxV=2\nSPECIFICATION Spec\nINVARIANT SameForAll\nINVARIANT FixedPoint\nCHECK_DEADLOCK FALSE\n"


def body(c):
    c.model(tlc("Projection", CFG % (3 if not THOROUGH else 4)), "norms reduced over processes")
    rng = c.rng
    cases = []
    for variant, counts in (("real", {1: 40, 2: 30, 3: 30}), ("complex", {2: 12})):
        e = linear_exe(variant)
        bs = []
        for np_, n in counts.items():
            b = LinearBatch(np_, scratch("c30" + variant))
            for i in range(n * (8 if THOROUGH else 1)):
                dim = rng.choice([1, 2, 2, 3])
                mesh = random_mesh(rng, dim, np_, small=dim == 3)
                pyr = dim == 3 and any(len(x) == 5 for x in mesh["elems"])
                prism = dim == 3 and any(len(x) == 6 for x in mesh["elems"])
                order = rng.randint(0, 1 if pyr else 2 if prism or dim == 3 else 3)
                bent = rng.random() < .5 and not pyr
                if bent:
                    meshgen.distort(mesh, rng)
                nu = rng.randint(1, 3)
                pts = [p for cs in mesh["nodes"] for p in cs]
                lo = [min(p[d] for p in pts) for d in range(dim)]
                hi = [max(p[d] for p in pts) for d in range(dim)]
                deg = order if max(abs(v) for v in lo + hi) <= 24 else min(order, 2)      # TLC's integers
                exps = [x for x in itertools.product(range(order + 1), repeat=dim) if sum(x) <= deg]
                cmds, tags = [], []
                for _ in range(2):
                    q = [[[rng.choice([-2, -1, 1, 2]), list(x)] for x in rng.sample(exps, min(len(exps), 4))] for _ in range(nu)]
                    t, o = rng.randint(-2, 3) * 64, rng.randint(0, 2)
                    kind = rng.choice(["proj", "projl"]) if not cmds else kind
                    op = rng.choice(["proj", "src"]) if kind == "projl" else "proj"
                    cmds.append("%s %d %d %s" % (op, t, o, " ".join("%d %s" % (len(u) * (dim + 1), " ".join(str(v) for z in u for v in [z[0]] + z[1])) for u in q)))
                    tags.append({"c": "proj", "op": op, "t": t, "o": o, "q": q})
                    # errors: with the time of the projection, and derivative zero
                    if not bent:
                        cmds.append("proj %d 0 %s" % (t, cmds[-1].split(" ", 3)[3]))
                        tags.append({"c": "proj", "t": t, "o": 0, "q": q})
                        for _ in range(2):
                            # the rules of tetrahedra have points on their faces, where a jump has no value
                            tet = dim == 3 and any(len(x) == 4 for x in mesh["elems"])
                            plane = rng.choice([lo[0] - 1, hi[0] + 1] + ([] if tet else list(range(lo[0] + 2, hi[0], 2)) * 2))
                            delta = [rng.randint(-3, 3) for _ in range(nu)]
                            cmds.append("errs %d %d %s" % (t, plane, " ".join(map(str, delta))))
                            tags.append({"c": "errs", "plane": plane, "delta": delta})
                b.add(mesh, kind, cmds, nu=nu, order=order, seed=rng.randrange(1 << 20), tag=(tags, lo, hi))
            bs.append(b)
        rs = run_batches(c, e, bs, "projecting the initial solution failed")
        if rs is None:
            return
        for _, case, evs in rs:
            kof, el = elements(case, evs)
            tags, lo, hi = case["tag"]
            out = []
            for tag, ev in zip(tags, evs[1:]):
                y = dict(tag, r=[])
                for R in ev["r"]:
                    R = {k: v for k, v in R.items() if k != "c"}
                    if "s" in R:
                        R["s"] = [dict(s, k=kof[s["id"]]) for s in R["s"]]
                    y["r"].append(R)
                out.append(y)
            cases.append({"ne": len(el), "lo": lo, "hi": hi, "ev": out})
        c.sample({"commands": rs[-1][1]["commands"], "np": rs[-1][0].np})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "errs":
                    ev["r"][-1]["e2"] += 10
                    return [x]
    judge(c, "ProjectionTrace", cases, corrupt=corrupt, label="projections and errors")


main("C30", body)
