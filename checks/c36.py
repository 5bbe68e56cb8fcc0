"""C36: absorbing layers and materials of zones."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from maxwell import *
NAMES = ["Main", "Mai", "left", "lefter", "B_3", "4"]


def tensor(rng, dim):
    """a point of a layer where every stretching is 1 + i r with r integer"""
    w, eps, mu = rng.choice([.5, 1, 2, 4]), rng.randint(1, 4), rng.randint(1, 3)
    args, rs, vs, n = [], [], [], mu
    for d in range(dim):
        off, di, dep, xi = rng.randint(-3, 3), rng.choice([-1, 0, 1, 1, -1]), rng.choice([.5, 1, 2]), rng.choice([-2, -1, 0, 1, 2, .5])
        r = rng.randint(0, 2)
        active = di != 0 and xi > 0
        sc = r * w * dep ** 3 / (xi * xi) if active else float(rng.randint(1, 3))
        x = off + xi * di if di else off + xi
        r = r if active else 0
        v = [rng.randint(-3, 3), rng.randint(-3, 3)]
        args += [off, di, dep, sc, x] + v
        rs.append(r)
        vs.append(v)
        n *= 1 + r * r
    before = rng.choice([0, 0, 0, 8]) + rng.randint(0, 7)
    if before & 8:          # an ordinary material
        rs, n = [0] * dim, mu
    return ["%r" % a for a in [w, eps, mu, n] + args + [before]], {"r": rs, "v": vs, "n": n, "eps": eps, "mu": mu}


def pattern(rng):
    kind, t = rng.choice([1, 1, 2, 2, 3]), rng.choice(NAMES)
    if kind == 2:
        t = t[:rng.randint(1, len(t))]
    return kind, "" if kind == 3 else t


def body(c):
    e = layers_exe()
    c.model(tlc("AbsorbingLayersMC", "CONSTANTS NE = %d NZ = 2 NP = 2 MaxR = 3\nSPECIFICATION Spec\nINVARIANTS Together Laws\n" % (4 if THOROUGH else 3)),
            "elements in a row, all zones, layers and owners; stretched materials")
    rng = c.rng
    batches = [MaxwellBatch(k, scratch("c36_%d" % k)) for k in (1, 2, 3, 4)]
    for i in range(600 if THOROUGH else 140):
        b = rng.choice(batches)
        dim = rng.choice([2, 2, 3])
        m = random_mesh(rng, dim, b.np)
        meshgen.zones(m, rng, rng.sample(NAMES, rng.randint(1, 5)))
        cmds, tag = [], []
        dirs = [[rng.choice([-1, 0, 1]) for _ in range(dim)] if rng.random() < .8 else [9] * dim for _ in m["zones"]]
        cmds.append("do trans " + " ".join(str(x) for z in dirs for x in z))
        tag.append({"k": "trans", "dirs": [[] if z[0] == 9 else z for z in dirs]})
        for j in range(6):
            a, t = tensor(rng, dim)
            cmds.append("do tensor " + " ".join(a))
            tag.append(dict(t, k="tensor"))
        ps = [pattern(rng) for _ in range(rng.randint(0, 4))]
        de = rng.choice([0, 1, 7])
        eps = [rng.randint(2, 9) for _ in ps]
        cmds.append("do mat %d %d " % (de, len(ps)) + " ".join("%s %d" % ({1: t, 2: t + ".*", 3: ".*"}[k], x) for (k, t), x in zip(ps, eps)))
        tag.append({"k": "mat", "def": de, "ps": [{"kind": k, "text": [ord(x) for x in t], "eps": x} for (k, t), x in zip(ps, eps)]})
        b.add(m, 1, 0, 0, 1, cmds, tag=tag)
    rs = run_batches(c, e, batches, "absorbing layers failed")
    if rs is None:
        return
    cases, n = [], {"transmissions": 0, "points": 0, "materials": 0}
    for _, case, evs in rs:
        m = case["mesh"]
        j = meshgen.as_json(m)
        co = j["co"]
        allv = [x for el in co for x in el]
        dim = m["dim"]
        bf = []
        for f in m["faces"]:
            if len(f) == 1:
                el, l = f[0]
                bf.append({"e": el + 1, "v": [co[el][x] for x in meshgen.FACES[(dim, len(co[el]))][l]]})
        mesh = {"bf": bf, "co": co, "zn": [z + 1 for z in m["zone"]], "names": m["zones"], "letters": [[ord(x) for x in z] for z in m["zones"]],
                "lo": [min(x[d] for x in allv) for d in range(dim)], "hi": [max(x[d] for x in allv) for d in range(dim)]}
        out = []
        for ev, t in zip(evs, case["tag"]):
            if t["k"] == "trans":
                out.append(dict(t, r=[{"names": r["names"], "tr": r["tr"]} for r in ev["r"]]))
                n["transmissions"] += sum(len(r["tr"]) for r in ev["r"])
            elif t["k"] == "tensor":
                if not all(r["att"] for r in ev["r"]):
                    c.violation("the scaling does not give the attenuation that was asked for", {"command": ev})
                    return
                out.append({"k": "tensor", "ev": [dict({x: t[x] for x in ("r", "v", "n", "eps", "mu")}, **{x: r[x] for x in ("div", "diva", "field", "curl", "curla", "cfield")}) for r in ev["r"]]})
                n["points"] += len(ev["r"])
            else:
                out.append(dict(t, r=[r["m"] for r in ev["r"]]))
                n["materials"] += sum(len(r["m"]) for r in ev["r"])
        cases.append({"mesh": mesh, "ev": out})
    c.sample(n)

    def corrupt(cs):
        for x in cs:
            if x["ev"][0]["r"][0]["tr"]:
                x["ev"][0]["r"][0]["tr"][0][0] += 1
                return [x]
    judge(c, "AbsorbingTrace", cases, corrupt=corrupt, label="absorbing layers")


main("C36", body)
