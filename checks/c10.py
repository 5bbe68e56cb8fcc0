"""C10: sparsity estimates equal the true coupling counts of every row."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *


def body(c):
    e = exe()
    rng = c.rng
    d = scratch("c10")
    bs = []
    for np_ in (1, 2, 3, 4):
        b = Batch(np_, d)
        for i in range({1: 24, 2: 40, 3: 50, 4: 50}[np_] * (5 if THOROUGH else 1)):
            dim = rng.choice([1, 2, 2, 3])
            nu = rng.choice([1, 2, 3, 3, 3])
            mesh = random_mesh(rng, dim, np_, curved=.2, small=dim == 3)
            bc = small_bases(rng, nu, mesh, rng.choice([None, 'mixed', 'mixed']))
            kinds = kinds_after(bc, nu)
            cmds = bc + ["dump"]
            tabs = []
            for k in range(2):
                ra, ru = pick_unknowns(rng, nu, .25)
                ca, cu = pick_unknowns(rng, nu, .25)
                cmds.append("index R new %d %s" % (rng.randint(0, 2), ra))
                cmds.append("index C new %d %s" % (rng.randint(0, 2), ca))
                for _ in range(2):
                    row, col = rng.choice([("R", "C"), ("R", "C"), ("R", "R"), ("C", "R")])
                    us = {"R": ru, "C": cu}
                    s, t = coupling(rng, us[row], us[col], kinds, np_)
                    cmds.append("spars %s %s %s" % (row, col, s))
                    tabs.append(t)
            b.add(mesh, cmds, nu=nu, tag=(dim, tabs))
        bs.append(b)
    rs = run_batches(c, e, bs, "estimate failed")
    if rs is None:
        return
    cases = []
    for b, case, evs in rs:
        dim, tabs = case["tag"]
        k = 0
        out = []
        for x in evs:
            if x["c"] == "basis":
                continue
            if x["c"] == "index":
                x["name"] = x["a"][0]
                for R in x["r"]:
                    R.pop("g2l"), R.pop("gf")
            elif x["c"] == "spars":
                x["t"] = tabs[k]
                k += 1
            elif x["c"] == "dump":
                for R in x["r"]:
                    for f in ("loc", "lfa", "ed", "no"):
                        R.pop(f)
            out.append(x)
        cases.append({"dim": dim, "ev": out})
    s = [x for x in cases[-1]["ev"] if x["c"] == "spars"][0]
    c.sample({"coupling": s["t"], "on": [r["on"][:8] for r in s["r"]], "off": [r["off"][:8] for r in s["r"]]})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "spars" and ev["r"][0]["on"]:
                    ev["r"][0]["on"][-1] += 1
                    return [x]
    judge(c, "SparsityTrace", cases, corrupt=corrupt, label="estimates on 1-4 processes")


main("C10", body)
