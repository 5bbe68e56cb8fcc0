"""C25: integrals over elements and faces are exact for polynomials up to the order of the rule."""
import sys, os, json, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *
from math import comb

DIM = {"point": 0, "line": 1, "triangle": 2, "square": 2, "tetrahedron": 3, "pyramid": 3, "prism": 3, "cube": 3, "hypercube": 4}
# highest order for which the library has a rule
TOP = {"point": 99, "line": 11, "triangle": 11, "square": 11, "tetrahedron": 11, "pyramid": 7, "prism": 7, "cube": 11, "hypercube": 3}


def denominator(s, e):
    """Only a scale: the specification states the moment and demands this denominator."""
    i, j, k, l = e
    odd = lambda a: 1 if a % 2 else a + 1
    tri = lambda a, b: comb(a + b, a) * (a + b + 1) * (a + b + 2)
    if s in ("line", "square", "cube", "hypercube"):
        d = 1
        for x in e[:DIM[s]]:
            d *= odd(x)
        return d
    if s == "triangle":
        return tri(i, j)
    if s == "prism":
        return tri(i, j) * odd(k)
    if s == "tetrahedron":
        n = i + j + k
        return comb(n, i) * comb(j + k, j) * (n + 1) * (n + 2) * (n + 3)
    if s == "pyramid":
        return 1 if i % 2 or j % 2 else (i + 1) * (j + 1) * comb(i + j + k + 2, k) * (i + j + k + 3)
    return 1


def monomials(s, o):
    box = s in ("square", "cube", "hypercube")
    return [tuple(e) + (0,) * (4 - DIM[s]) for e in itertools.product(range(o + 1), repeat=DIM[s]) if box or sum(e) <= o]


def ask(e, wanted):
    inp = ""
    for s, o, deg in wanted:
        ms = monomials(s, deg)
        inp += "%s %d %d\n" % (s, o, len(ms)) + "".join("%d %d %d %d %d\n" % (m + (denominator(s, m),)) for m in ms)
    r = run([e], stdin=inp, timeout=300)
    recs = [json.loads(x) for x in r.out.splitlines() if x.startswith("{")]
    if r.rc != 0 or len(recs) != len(wanted):
        return None, (r.out + r.err)[-2000:]
    return recs, None


def rules(c):
    e = build("quad", ["quad.cpp"], "real")
    wanted = [(s, o, 0) for s in DIM for o in range(14)]
    first, err = ask(e, wanted)
    if first is None:
        return c.violation("quadrature rules cannot be read", {"output": err})
    # every rule to the degree it claims
    second = []
    for (s, o, _), x in zip(wanted, first):
        second.append((s, o, min(max(x["got"], o), 11 if s != "point" else 0) if x["ok"] else 0))
    recs, err = ask(e, second)
    if recs is None:
        return c.violation("quadrature rules cannot be read", {"output": err})
    cases = []
    for (s, o, deg), x in zip(second, recs):
        x.update(c="rule", deg=deg if s != "point" else o, top=TOP[s])
        x["got"] = min(x["got"], 1000)
        if not x["ok"]:
            x["mo"] = []
        cases.append({"dim": 0, "sh": [], "ev": [x]})
    # the degree of a point does not matter
    for x in cases:
        if x["ev"][0]["shape"] == "point":
            x["ev"][0]["deg"] = max(x["ev"][0]["ask"], x["ev"][0]["deg"])

    def corrupt(cs):
        x = [y for y in cs if y["ev"][0]["shape"] == "triangle" and y["ev"][0]["ask"] == 5]
        x[0]["ev"][0]["mo"][-1]["v"] += 1000
        return x
    judge(c, "QuadratureTrace", cases, corrupt=corrupt, label="quadrature rules", keyfn=lambda bad, pi: "%s order %d" % (bad["ev"][0]["shape"], bad["ev"][0]["ask"]))
    c.sample({"rules": len(cases), "moments": sum(len(x["ev"][0]["mo"]) for x in cases)})


def meshes(c):
    e = exe()
    rng = c.rng
    d = scratch("c25")
    bs = {k: Batch(k, d) for k in (1, 2, 3)}
    hist = {}
    for i in range(220 if THOROUGH else 60):
        np_ = rng.choice([1, 1, 1, 2, 3])
        dim = rng.choice([1, 2, 2, 3, 3, 3])
        kinds = rng.choice(["prism", "prism", "mixed", "cube", "simplex", "pyr"]) if dim == 3 else None
        m = random_mesh(rng, dim, np_, kinds=kinds)
        if rng.random() < .6:
            meshgen.distort(m, rng)
        nu = rng.choice([1, 1, 2, 3])
        shapes = {len(x) for x in m["elems"]}
        top = 5 if dim < 3 else 1 if 5 in shapes else 2 if 6 in shapes else 4
        # the library has no conforming basis of higher order on prisms and pyramids
        ctop = 1 if dim == 3 and shapes & {5, 6} else top
        cmds, hs = ["dump", "refgeo"], []
        for k in range(rng.choice([1, 2, 2, 3, 4])):
            kind = rng.choice(["dg", "dg", "conf"])
            o = rng.randint(1, top if kind == "dg" else ctop)
            u = rng.choice([-1] + list(range(1, nu))) if k else -1
            cmds += ["basis %s %d %d" % (kind, o, u), "rules"]
            hs.append((o, u))
        cmds.append("integrals")
        bs[np_].add(m, cmds, nu=nu, tag=(nu, hs))
    rs = run_batches(c, e, [b for b in bs.values() if b.cases], "integration failed")
    if rs is None:
        return
    cases, seen = [], {}
    for np_, case, evs in rs:
        m = case["mesh"]
        nu, hs = case["tag"]
        for rank in range(len(evs[0]["r"])):
            ev, left = [], list(hs)
            sh = []
            for x in evs:
                r = x["r"][rank]
                if x["c"] == "dump":
                    ev.append({"c": "head", "el": [{"id": y["id"], "co": y["co"]} for y in r["el"]]})
                elif x["c"] == "refgeo":
                    sh = [{"nv": y["nv"], "fa": [{"v": f["v"]} for f in y["fa"]]} for y in r["sh"]]
                elif x["c"].startswith("basis"):
                    o, u = left.pop(0)
                    ev.append({"c": "basis", "o": o, "u": u, "all": [0] * nu})
                elif x["c"] == "rules":
                    ev.append({"c": "use", "e": r["e"], "f": r["f"]})
                elif x["c"] == "integrals":
                    for name in ("ei", "fi"):
                        ev += [{"c": name, "s": r[name][i:i + 40]} for i in range(0, len(r[name]), 40)]
                        seen[name] = seen.get(name, 0) + len(r[name])
            if ev[0]["el"]:
                cases.append({"dim": m["dim"], "sh": sh, "ev": ev, "commands": case["commands"]})

    def corrupt(cs):
        for x in cs:
            for v in x["ev"]:
                if v["c"] == "fi" and v["s"] and x["dim"] > 1:
                    v["s"][0]["v"][0][-1] += 16
                    return [x]
    judge(c, "QuadratureTrace", cases, corrupt=corrupt, label="integrals over elements and faces")
    c.sample({"meshes": len(rs), "element integrals": seen.get("ei", 0), "face integrals": seen.get("fi", 0)})


def body(c):
    c.model(tlc("QuadratureMC", "CONSTANTS MaxOrder = 3 MaxOps = %d\nSPECIFICATION Spec\nINVARIANTS Enough Reference0\n" % (6 if THOROUGH else 4)),
            "all histories of assigning orders to two neighbouring elements; moments and volumes of the reference shapes")
    rules(c)
    meshes(c)


main("C25", body)
