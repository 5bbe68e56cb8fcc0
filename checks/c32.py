"""C32: the forms of DG-Max's discretisation of the curl-curl equation."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from maxwell import *


def body(c):
    e = maxwell_exe()
    c.model(tlc("MaxwellFormsMC", "CONSTANTS Entries <- %s\nSPECIFICATION Spec\nINVARIANTS Symmetric Consistent Penalty Normals\n" % ("MCSigned" if THOROUGH else "MCEntries")),
            "two elements in two and three dimensions, linear fields with few coefficients")
    rng = c.rng
    batches = [MaxwellBatch(k, scratch("c32_%d" % k)) for k in (1, 2, 3)]
    for i in range(300 if THOROUGH else 60):
        b = batches[rng.choice([0, 0, 0, 1, 2])]
        mode, proj = rng.choice([0, 0, 1, 2]), int(rng.random() < .3)
        m = simplices(rng, b.np)
        order = rng.choice([1, 2, 2, 2, 3]) if m["dim"] == 2 else rng.choice([1, 2, 2])
        b.add(m, order, mode, proj, rng.randint(0, 100000), ["form %d %d" % (rng.randint(1, 9), rng.random() < .5)])
    rs = run_batches(c, e, batches, "assembly of the forms failed")
    if rs is None:
        return
    cases, n = [], {"elements": 0, "faces": 0, "boundary": 0, "err": 0}
    for _, case, evs in rs:
        order, mode, proj = case["what"]
        for ev in evs:
            for r in ev["r"]:
                out = [{"c": "el", "fits": r["fits"], "s": r["el"]}] + [{"c": "fa", "s": r["fa"][i:i + 20]} for i in range(0, len(r["fa"]), 20)]
                if r["err"]:
                    out.append({"c": "err", "v": r["err"]})
                    n["err"] += 1
                if r["el"]:
                    cases.append({"dim": case["mesh"]["dim"], "mode": mode, "proj": bool(proj), "vec": mode != 2 and not proj, "ev": out})
                n["elements"] += len(r["el"])
                n["faces"] += len(r["fa"])
                n["boundary"] += sum(f["bc"] > 0 for f in r["fa"])
    c.sample(n)

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "fa":
                    ev["s"][0]["pen"] += 1
                    return [x]
    judge(c, "MaxwellTrace", cases, corrupt=corrupt, label="forms")


main("C32", body)
