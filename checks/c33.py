"""C33: the mixed forms of DG-Max's divergence conforming discretisation."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from maxwell import *


def body(c):
    e = divmax_exe()
    c.model(tlc("DivMaxwellFormsMC", "CONSTANTS Entries <- %s\nSPECIFICATION DSpec\nINVARIANTS Adjoint Fitting Zeros\n" % ("MCSigned" if THOROUGH else "MCEntries")),
            "two elements in two and three dimensions, linear fields and potentials with few coefficients")
    rng = c.rng
    batches = [MaxwellBatch(k, scratch("c33_%d" % k)) for k in (1, 2, 3)]
    for i in range(200 if THOROUGH else 40):
        b = batches[rng.choice([0, 0, 0, 1, 2])]
        m = simplices(rng, b.np)
        order = rng.choice([1, 2, 2, 2, 3]) if m["dim"] == 2 else rng.choice([1, 2, 2])
        b.add(m, order, 0, 1, rng.randint(0, 100000), ["form %d %d %d" % tuple(rng.randint(1, 9) for _ in range(3))])
    rs = run_batches(c, e, batches, "assembly of the mixed forms failed")
    if rs is None:
        return
    cases, n = [], {"elements": 0, "faces": 0, "boundary": 0, "err": 0, "lifted": 0}
    for _, case, evs in rs:
        for ev in evs:
            for r in ev["r"]:
                out = [{"c": "el", "fits": r["fits"], "s": r["el"]}] + [{"c": "fa", "s": r["fa"][i:i + 20]} for i in range(0, len(r["fa"]), 20)]
                if r["err"]:
                    out.append({"c": "err", "v": r["err"][0]})
                    n["err"] += 1
                if r["el"]:
                    cases.append({"s1": int(ev["a"][0]), "ev": out})
                n["elements"] += len(r["el"])
                n["faces"] += len(r["fa"])
                n["boundary"] += sum(f["bc"] > 0 for f in r["fa"])
                n["lifted"] += sum(any(f[k]["pos"]) for f in r["fa"] for k in ("b1", "b2", "b3"))
    c.sample(n)

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "fa":
                    ev["s"][0]["k"][1] += 1
                    return [x]
    judge(c, "DivMaxwellTrace", cases, corrupt=corrupt, label="mixed forms")


main("C33", body)
