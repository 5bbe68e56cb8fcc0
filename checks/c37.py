"""C37: field patterns and the problems made from them."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from maxwell import *


def pad(v):
    return list(v) + [0] * (3 - len(v))


def wave(rng, dim, k=None):
    """a random wave vector and a field that is orthogonal to it"""
    k = k or [rng.randint(-2, 2) for _ in range(dim)]
    if not any(k):
        k[rng.randrange(dim)] = rng.choice([-1, 1, 2])
    if dim == 2:
        basis = [(-k[1], k[0])]
    else:
        basis = [(0, -k[2], k[1]), (k[2], 0, -k[0]), (-k[1], k[0], 0)]
    while True:
        co = [(rng.randint(-2, 2), rng.randint(-2, 2)) for _ in basis]
        e = [[sum(a[q] * b[d] for a, b in zip(co, basis)) for q in (0, 1)] for d in range(dim)]
        if any(any(x) for x in e):
            break
    ph = rng.randint(0, 3)
    return {"k": pad(k), "E": e + [[0, 0]] * (3 - dim), "ph": ph}, " ".join(map(str, k + [x for z in e for x in z] + [ph]))


def points(rng, dim, n, mus):
    mu = rng.choice([[1, 1, 1], [2, 2, 2], [1, 2, 3], [rng.randint(1, 3) for _ in range(3)]]) if mus else [1, 1, 1]
    ps = [[rng.randint(-6, 9) for _ in range(dim)] for _ in range(n)]
    return mu, ps


def points_text(mu, ps):
    return " ".join(map(str, mu + [len(ps)] + [x for q in ps for x in q]))


def body(c):
    e = patterns_exe()
    c.model(tlc("PlaneWavesMC", "CONSTANTS MaxK = %d MaxZ = 3\nSPECIFICATION Spec\nINVARIANTS Solves Continuous Forward\nCHECK_DEADLOCK FALSE\n" % (4 if THOROUGH else 1)),
            "waves on the dispersion relation, reflection at interfaces")
    rng = c.rng
    batches = [MaxwellBatch(k, scratch("c37_%d" % k)) for k in (1, 2)]
    for i in range(300 if THOROUGH else 60):
        b = rng.choice(batches)
        dim = rng.choice([2, 3])
        m = random_mesh(rng, dim, b.np)
        cmds, tag = [], []
        for j in range(3):
            w, t = wave(rng, dim)
            mu, ps = points(rng, dim, 4, True)
            cmds.append("do wave %s %d %d %d %s" % (t, rng.randint(0, 1), rng.randint(1, 5), rng.randint(1, 5), points_text(mu, ps)))
            tag.append({"k": "wave", "w": w, "mu": mu})
        for j in range(3):
            n1, n2, z1, z2, om, d, s, pos = rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 2), rng.randrange(dim), rng.choice([-1, 1]), rng.randint(-3, 4)
            legacy = rng.random() < .25
            k = [0] * dim
            if legacy:
                d, s = 1, 1
                k[1] = om * n1
                ph = rng.randint(0, 3)
                w = {"k": pad(k), "E": [[1, 0], [0, 0], [0, 0]], "ph": ph}
                t = " ".join(map(str, k + [1, 0] + [0, 0] * (dim - 1) + [ph]))
            else:
                k[d] = om * n1 * rng.choice([-1, 1])
                w, t = wave(rng, dim, k)
            mu, ps = points(rng, dim, 5, True)
            ps[0][d] = pos
            cmds.append("do interface %s %r %r %r %r %d %d %d %d %d %s" % (t, n1 * z1, n1 / z1, n2 * z2, n2 / z2, d, s, pos, z1 + z2, legacy, points_text(mu, ps)))
            tag.append({"k": "interface", "mu": mu, "i": {"w": w, "d": d + 1, "c": pos, "s": s, "n1": n1, "n2": n2, "z1": z1, "z2": z2}})
        w, t = wave(rng, dim)
        om = rng.randint(1, 3)
        cmds.append("do problem %s %d %d" % (t, om, rng.randint(0, 2)))
        tag.append({"k": "problem", "w": w, "om": om})
        b.add(m, 1, 0, 0, 1, cmds, tag=tag)
    rs = run_batches(c, e, batches, "field patterns failed")
    if rs is None:
        return
    cases, n = [], {"points of patterns": 0, "points of problems": 0, "points of boundaries": 0}
    for _, case, evs in rs:
        out = []
        for ev, t in zip(evs, case["tag"]):
            for r in ev["r"]:
                out.append(dict(t, **{x: r[x] for x in ("at", "el", "fa") if x in r}))
                n["points of patterns"] += len(r.get("at", []))
                n["points of problems"] += len(r.get("el", []))
                n["points of boundaries"] += len(r.get("fa", []))
        cases.append({"ev": out})
    c.sample(n)

    def corrupt(cs):
        x = cs[0]
        x["ev"][0]["at"][0]["c"][2][0] += 1
        return [x]
    judge(c, "PlaneWavesTrace", cases, corrupt=corrupt, label="field patterns")


main("C37", body)
