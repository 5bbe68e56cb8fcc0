"""C21: which basis functions an element has after a history of assignments."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *


def cfg(n, unknowns, dgs, confs, monos, emit):
    return ("CONSTANTS Unknowns = %s\n Dgs = %s\n Confs = %s\n Monos = %s\n MaxOps = %d\nSPECIFICATION Spec\n" % (unknowns, dgs, confs, monos, n)) + \
        ("CONSTRAINT Emit\n" if emit else "INVARIANT Complete\nPROPERTY Alone\nVIEW View\n")


def command(o):
    return "basis clear 0 0" if o["op"] == "clear" else "basis %s %d %d" % (o["k"], o["p"], -1 if o["op"] == "all" else o["u"])


def events(case, evs):
    out = []
    for cmd, x in zip(case["commands"], evs):
        t = cmd.split()
        if x["c"] == "basis":
            out.append({"c": "op", "op": "clear" if t[1] == "clear" else "all" if t[3] == "-1" else "one", "k": t[1], "p": int(t[2]), "u": max(0, int(t[3]))})
        elif x["c"] in ("layout", "whose", "trace"):
            y = dict(x["r"][0], c=x["c"])
            if x["c"] != "layout":
                y["u"] = int(t[1])
            out.append(y)
    return {"dim": case["mesh"]["dim"], "nu": case["nu"], "ev": out}


def look(state, nu):
    return ["layout"] + ["whose %d %s %d" % (u, state[u][0], state[u][1]) for u in range(nu) if state[u]]


def after(state, o):
    s = list(state)
    for u in range(len(s)):
        if o["op"] == "clear":
            s[u] = None
        elif o["op"] == "all" or o["u"] == u:
            s[u] = (o["k"], o["p"])
    return s


def allowed(mesh):
    """Orders that exist for all shapes of this mesh."""
    n = {len(x) for x in mesh["elems"]} if mesh["dim"] == 3 else set()
    return {"dg": 1 if 5 in n else 2 if 6 in n else 4, "conf": 1 if n & {5, 6} else 4}


def small(rng, dim, kinds=None):
    if dim == 3 and rng.random() < .5:
        return meshgen.pairs(3, rng, 2, only=kinds)
    if dim < 3 and rng.random() < .3:
        return meshgen.pairs(dim, rng, 3)
    return random_mesh(rng, dim, 1, small=True)


def registry(c):
    """Sets registered directly with single elements."""
    e = build("elbasis", ["elbasis.cpp"], "real")
    k = lambda n, emit: ("CONSTANTS Unknowns = {0,1}\n Places <- MCPlaces\n Sets = {0,1,3}\n MaxOps = %d\nSPECIFICATION Spec\n" % n) + \
        ("CONSTRAINT Emit\n" if emit else "INVARIANT Counts\nPROPERTY Local\nVIEW View\n")
    c.model(tlc("SetRegistryMC", k(4, False)), "sets registered with an element")
    hs, r = gen_histories("SetRegistryMC", k(2, True))
    c.model(r, "registration histories")
    rng = c.rng
    names = ["def", "face", "edge", "node"]
    word = lambda o: "clear" if o["op"] == "clear" else "%s %d %s%d" % (names[o["pl"][0]], o["s"], "" if o["pl"][0] == 0 else "%d " % o["pl"][1], o["u"])
    lines = ["new %s 2 %d " % (rng.choice(["2 3", "2 4", "3 4", "3 6"]), rng.randint(0, 2)) + " ".join(word(o) for o in h) for h in hs]
    many = {(2, 3): (3, 0, 3), (2, 4): (4, 0, 4), (3, 4): (4, 6, 4), (3, 5): (5, 8, 5), (3, 6): (5, 9, 6), (3, 8): (6, 12, 8)}
    for i in range(4000 if THOROUGH else 500):
        sh = rng.choice(sorted(many))
        nu = rng.randint(1, 4)
        t = ["new %d %d %d %d" % (sh[0], sh[1], nu, rng.randint(0, 2))]
        for j in range(rng.randint(3, 25)):
            x = rng.choice([0, 1, 1, 1, 2, 2, 3, 3, 3])
            if rng.random() < .04:
                t.append("clear")
                continue
            if x and many[sh][x - 1] == 0:
                x = 1
            o = {"op": "put", "pl": [x, rng.randrange(many[sh][x - 1]) if x else 0], "s": rng.randrange(5 if x else 3), "u": rng.choice([-1] + list(range(nu)) * 2)}
            t.append(word(o))
        lines.append(" ".join(t))
    r = run([e], stdin="\n".join(lines) + "\n", timeout=300)
    out = [json.loads(l) for l in r.out.splitlines() if l.startswith("{")]
    if r.rc != 0 or len(out) != len(lines):
        c.violation("registering sets: the program ended early", {"line": lines[len(out)] if len(out) < len(lines) else "", "out": (r.out + r.err)[-1500:]})
        return

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["op"] == "node" and ev["u"][0]["v"]:
                    ev["u"][0]["v"][-1] += 1
                    return [x]
    judge(c, "SetRegistryTrace", out, corrupt=corrupt, label="sets registered with an element")


def body(c):
    e = exe()
    registry(c)
    if c.violations:
        return
    c.model(tlc("BasisLayoutMC", cfg(3, "{0,1,2}", "{0,1,2,3,4}", "{1,2,3,4,5}", "{0,1,2,3}", False)), "assignments of bases to three unknowns")
    hs, r = gen_histories("BasisLayoutMC", cfg(4 if THOROUGH else 3, "{0,1}", "{1,2}", "{1,2}", "{1}", True))
    c.model(r, "histories")
    rng = c.rng
    rng.shuffle(hs)
    d = scratch("c21")
    b = Batch(1, d)
    for h in hs[:3000 if THOROUGH else 600]:
        mesh = small(rng, rng.choice([1, 2, 2, 3]), kinds=[4, 8])
        if mesh["dim"] == 3 and any(len(x) in (5, 6) for x in mesh["elems"]):
            mesh = meshgen.pairs(3, rng, 2, only=[4, 8])
        st, cmds = [None, None], []
        for o in h:
            st = after(st, o)
            cmds += [command(o)] + (look(st, 2) if rng.random() < .5 or o is h[-1] else ["layout"])
        b.add(mesh, cmds, nu=2)
        b.cases[-1]["nu"] = 2
    # longer histories, all shapes, higher orders
    for i in range(400 if THOROUGH else 60):
        nu = rng.randint(1, 4)
        mesh = small(rng, rng.choice([1, 2, 3, 3]))
        mx = allowed(mesh)
        st, cmds = [None] * nu, []
        for j in range(rng.randint(2, 7)):
            k = rng.choice(["dg", "conf", "mono", "dg", "conf", "clear"])
            if k == "clear":
                o = {"op": "clear", "k": "", "p": 0, "u": 0}
            else:
                one = j > 0 and k != "mono" and rng.random() < .6
                u = rng.randrange(nu)
                if one and k == "dg" and u == 0:
                    one = False
                o = {"op": "one" if one else "all", "k": k, "p": rng.randint(1 if k == "conf" else 0, mx.get(k, 3)), "u": u if one else 0}
            st = after(st, o)
            cmds += [command(o)] + look(st, nu)
        b.add(mesh, cmds, nu=nu)
        b.cases[-1]["nu"] = nu
    rs = run_batches(c, e, [b], "assigning basis functions failed")
    if rs is None:
        return
    cases = [events(case, evs) for _, case, evs in rs]
    c.sample({"commands": rs[-1][1]["commands"]})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "layout" and ev["el"][0]["u"][0]["n"] > ev["el"][0]["u"][0]["i"]:
                    ev["el"][0]["u"][0]["fo" if x["dim"] == 1 else "no"][0] += 1
                    return [x]
    judge(c, "BasisTrace", cases, corrupt=corrupt, label="assignments of bases")
    if not c.violations:
        b = Batch(1, scratch("c21p"))
        b.add(meshgen.pairs(3, rng, 2, only=[6]), ["basis dg 3 -1", "layout", "whose 0 dg 3"], nu=1)
        b.cases[-1]["nu"] = 1
        r = b.run(e)[0]
        if "error" in r or validate_cases(c, "BasisTrace", [events(b.cases[0], r["ev"])], label="prisms of order three") is not None:
            c.violation("discontinuous functions of order three on prisms", {"result": str(r.get("error"))}, key="c21-prism-order-three")


if __name__ == "__main__":
    main("C21", body)
