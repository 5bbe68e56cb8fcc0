"""C31: elements of second order with curved edges."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *
from c21 import events


def body(c):
    e = exe()
    c.model(tlc("CurvedElementsMC", "CONSTANTS Moves <- MCMoves\nSPECIFICATION Spec\nINVARIANTS Consistent Partition Nodal Tables Closed Positive Outward\n"),
            "facets in all vertex orders, points in quarters, one or two moved nodes")
    rng = c.rng
    geo, fun = Batch(1, scratch("c31a")), Batch(1, scratch("c31b"))
    for i in range(120 if THOROUGH else 36):
        dim = rng.choice([2, 3])
        m = random_mesh(rng, dim, 1, small=dim == 3 and rng.random() < .5, curved=1, kinds="simplex" if dim == 3 else "tri")
        p = rng.randint(1, 3)
        geo.add(m, ["basis dg %d -1" % p, "dump", "refgeo", "elpts", "facepts %d" % (4 - dim), "integrals"], tag=p)
    for i in range(160 if THOROUGH else 40):
        dim = rng.choice([2, 3])
        m = random_mesh(rng, dim, 1, small=True, curved=1, kinds="simplex" if dim == 3 else "tri")
        if any(m["per"][k] and m["n"][k] < 3 for k in range(dim)):
            continue
        nu = rng.randint(1, 3)
        cmds = ["basis %s %d -1" % (rng.choice(["dg", "conf"]), rng.randint(1, 3))]
        st = [tuple(cmds[0].split()[1:3])] * nu
        for j in range(rng.randint(0, 3)):
            u = rng.randrange(nu)
            k = "conf" if u == 0 else rng.choice(["conf", "dg"])
            p = rng.randint(1, 4)
            cmds.append("basis %s %d %d" % (k, p, u))
            st[u] = (k, str(p))
        cmds += ["layout"] + ["whose %d %s %s" % (u, st[u][0], st[u][1]) for u in range(nu)] + ["trace %d" % u for u in range(nu)]
        fun.add(m, cmds, nu=nu)
        fun.cases[-1]["nu"] = nu
    rs = run_batches(c, e, [geo, fun], "elements of second order failed")
    if rs is None:
        return
    cases, fcases = [], []
    n = {"elements": 0, "faces": 0, "periodic": 0}
    for _, case, evs in rs:
        m = case["mesh"]
        if "nu" in case and any(x["c"] == "layout" for x in evs):
            x = events(case, evs)
            out = []
            for ev in x["ev"]:
                out += [{"c": "trace", "u": ev["u"], "fc": ev["fc"][i:i + 20]} for i in range(0, len(ev["fc"]), 20)] if ev["c"] == "trace" else [ev]
            fcases.append(dict(x, ev=out))
            continue
        r = {x["c"]: x["r"][0] for x in evs}
        el = [{"id": x["id"], "co": x["co"], "nd": x["nd"]} for x in r["dump"]["el"]]
        for f in r["facepts"]["fp"]:
            f["per"] = any(m["per"])
            for t in f["p"]:
                t.setdefault("L2", [])
                t.setdefault("R2", [])
        n["elements"] += len(el)
        n["faces"] += len(r["facepts"]["fp"])
        n["periodic"] += any(m["per"])
        chunk = lambda c_, s: [{"c": c_, "s": s[i:i + 30]} for i in range(0, len(s), 30)]
        cases.append({"dim": m["dim"], "ev": [{"c": "ref", "s": r["refgeo"]["sh"]}, {"c": "el", "s": el}] + chunk("ep", r["elpts"]["ep"]) + chunk("fp", r["facepts"]["fp"])
                      + [{"c": "int", "deep": m["dim"] == 2 or case["tag"] > 1, "ei": r["integrals"]["ei"], "fi": r["integrals"]["fi"]}]})
    c.sample(dict(n, functions=len(fcases)))

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "int":
                    ev["fi"][0]["v"][0][0] += 16
                    return [x]
    judge(c, "CurvedTrace", cases, corrupt=corrupt, label="geometry of elements of second order")

    def corrupt2(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "layout" and ev["el"][0]["u"][0]["n"] > ev["el"][0]["u"][0]["i"]:
                    ev["el"][0]["u"][0]["no"][0] += 1
                    return [x]
    judge(c, "BasisTrace", fcases, corrupt=corrupt2, label="basis functions on elements of second order")


main("C31", body)
