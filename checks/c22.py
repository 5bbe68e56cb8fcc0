"""C22: conforming basis functions are continuous."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *
from c21 import events, allowed, cfg


def body(c):
    e = exe()
    c.model(tlc("BasisLayoutMC", cfg(2, "{0,1}", "{1,2}", "{1,2,3,4,5}", "{1}", False)), "functions per entity")
    rng = c.rng
    d = scratch("c22")
    b = Batch(1, d)

    def add(mesh, p, extra=()):
        nu = rng.randint(1, 2)
        cmds = list(extra) or ["basis %s %d -1" % (rng.choice(["conf", "dg"]) if nu > 1 else "conf", 1)]
        for u in range(nu):
            cmds.append("basis conf %d %d" % (p, u))
        cmds += ["layout"] + ["trace %d" % u for u in range(nu)]
        b.add(mesh, cmds, nu=nu)
        b.cases[-1]["nu"] = nu
    # every relative numbering of two neighbours
    for dim in (1, 2):
        for p in (1, 2, 3, 4, 5 if dim == 1 else 4):
            add(meshgen.pairs(dim, rng), p)
    for p in (1, 2, 3, 4) if THOROUGH else (1, 2, 3, 4):
        for only in ([4], [8]):
            n = (60 if p < 4 else 24) if not THOROUGH else None
            if n:
                add(meshgen.pairs(3, rng, n, only=only), p)
            else:
                for _ in range(6):
                    add(meshgen.pairs(3, rng, 200 if p < 4 else 80, only=only), p)
    for _ in range(1 if not THOROUGH else 8):
        add(meshgen.pairs(3, rng, 150), 1)
    # meshes, some of them periodic
    for i in range(120 if THOROUGH else 30):
        dim = rng.choice([1, 2, 2, 3, 3])
        mesh = random_mesh(rng, dim, 1)
        if any(mesh["per"][k] and mesh["n"][k] < 3 for k in range(dim)):
            continue        # entities coincide
        if rng.random() < .5:
            meshgen.distort(mesh, rng)
        add(mesh, rng.randint(1, min(3, allowed(mesh)["conf"])))
    rs = run_batches(c, e, [b], "evaluating conforming functions failed")
    if rs is None:
        return
    cases = []
    for _, case, evs in rs:
        x = events(case, evs)
        # many small events rather than few large ones
        out = []
        for ev in x["ev"]:
            if ev["c"] == "trace":
                out += [{"c": "trace", "u": ev["u"], "fc": ev["fc"][i:i + 20]} for i in range(0, len(ev["fc"]), 20)]
            else:
                out.append(ev)
        cases.append(dict(x, ev=out))
    c.sample({"faces": sum(len(ev["fc"]) for x in cases for ev in x["ev"] if ev["c"] == "trace")})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "trace" and ev["fc"]:
                    ev["fc"][0]["v"][0][1][-1] += 20
                    return [x]
    judge(c, "BasisTrace", cases, corrupt=corrupt, label="continuity of conforming functions", timeout=600)
    # prisms have conforming functions of order one only that fit together
    if not c.violations:
        b = Batch(1, scratch("c22p"))
        b.add(meshgen.pairs(3, rng, 6, only=[6]), ["basis conf 2 -1", "layout", "trace 0"], nu=1)
        b.cases[-1]["nu"] = 1
        r = b.run(e)[0]
        if "error" in r or validate_cases(c, "BasisTrace", [events(b.cases[0], r["ev"])], label="prisms of order two") is not None:
            c.violation("conforming functions of order two on prisms", {"result": str(r.get("error"))}, key="c22-prism-order-two")


main("C22", body)
