"""C29: the equations of a linear problem are its stored matrices and sources, on any number of processes."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from linear import *

CFG = "CONSTANTS NE=%d NP=%d\nSPECIFICATION Spec\nINVARIANT Equal\nINVARIANT Linear\nINVARIANT MassInverse\nCHECK_DEADLOCK FALSE\n"


def history(rng, nv, length):
    cmds = ["setv %d %d" % (v, rng.randrange(20)) for v in range(nv)]
    cmds.insert(rng.randrange(len(cmds)), "prep")
    fresh, big = set(), {}
    t = lambda: rng.randint(-3, 5) * 64
    for _ in range(length):
        v, w = rng.randrange(nv), rng.randrange(nv)
        k = rng.choice(["setv", "sync", "mass", "mul", "rhs", "rhs", "der", "rhsl", "rhsl", "mull", "derl", "prep"])
        vs = [x for x in range(nv) if x != v and not big.get(x) and rng.random() < .7]
        if k == "prep":
            cmds.append("prep")
        elif k == "setv":
            cmds.append("setv %d %d" % (v, rng.randrange(20)))
            fresh.discard(v)
            big[v] = False
        elif k == "sync":
            cmds.append("sync %d" % v)
            fresh.add(v)
        elif k == "mass":
            cmds.append("mass %d" % v)
            fresh.add(v)
        else:
            if not vs:
                continue
            if k in ("mul", "rhs", "der"):
                vs = vs[:1]
            for x in vs:
                if x not in fresh:
                    cmds.append("sync %d" % x)
                    fresh.add(x)
            if k == "mul":
                cmds.append("mul %d %d" % (vs[0], v))
            elif k in ("rhs", "der"):
                cmds.append("%s %d %d %d" % (k, vs[0], v, t()))
            else:
                cmds.append("%s %d %d %d %s %s" % (k, v, t(), len(vs), " ".join(map(str, vs)), " ".join(str(rng.choice([-1, 1, 2])) for _ in vs)))
            fresh.add(v)
            big[v] = True          # products of products do not fit into TLC's integers
    return cmds


def as_case(case, evs):
    kof, el = elements(case, evs)
    out, seen = [], set()
    for e in evs[1:]:
        y = {"c": e["c"], "x": [int(v) for v in e["a"]], "r": [], "o": 1}
        for R in e["r"]:
            y["r"].append({"v": sorted(([kof[i], o, vs] for i, o, vs in R["v"]), key=lambda z: -z[1])})
        if y["c"] == "setv":
            seen.add(y["x"][0])
        if len(seen) < case["nv"] and case["kind"].startswith("lin"):
            y["o"] = 0          # vectors that have never been written have no defined value
        out.append(y)
    return {"m": el, "nv": case["nv"], "src": case["src"], "ev": out}


def body(c):
    c.model(tlc("LinearProblem", CFG % ((4, 2) if not THOROUGH else (4, 3))), "multiplication with known faces and synchronisation")
    rng = c.rng
    d = scratch("c29")
    for variant, counts in (("real", {1: 8, 2: 12, 3: 12, 4: 10}), ("complex", {2: 4, 3: 4})):
        e = linear_exe(variant)
        bs = []
        for np_, n in counts.items():
            b = LinearBatch(np_, scratch("c29" + variant))
            for i in range(n * (8 if THOROUGH else 1)):
                dim = rng.choice([1, 2, 2, 3])
                mesh = random_mesh(rng, dim, np_, small=dim == 3, curved=.25)
                nu = rng.randint(1, 3 if dim < 3 else 2)
                order = rng.randint(0, 1 if dim == 3 or nu > 1 else 2)
                kw = dict(nu=nu, order=order, jitter=rng.choice([0, 200]) if np_ > 1 else 0, seed=rng.randrange(1 << 30), tag=dim)
                if i % 3 == 2:
                    b.add(mesh, "steady", ["solve %d" % rng.choice([-500, -700, 600])] * rng.choice([1, 1, 2]), nv=1, **kw)
                else:
                    nv = rng.randint(2, 4)
                    b.add(mesh, rng.choice(["lin", "lint"]) if 2 <= nv <= 5 else "lin", history(rng, nv, 9), nv=nv, src=rng.choice([0, 1, 2, 3, 3]), **kw)
            bs.append(b)
        rs = run_batches(c, e, bs, "solving a linear problem failed")
        if rs is None:
            return
        cases = [as_case(case, evs) for _, case, evs in rs]
        c.sample({"commands": rs[-1][1]["commands"], "np": rs[-1][0].np})

        def corrupt(cs):
            for x in reversed(cs):
                for ev in x["ev"]:
                    if ev["c"] == "rhs" and len(ev["r"]) > 1:
                        for R in ev["r"]:
                            for v in R["v"]:
                                if v[1] == 0:
                                    v[2][ev["x"][1]][0] += 64
                                    return [x]
        judge(c, "LinearTrace", cases, corrupt=corrupt, label="linear problems (%s)" % variant)


main("C29", body)
