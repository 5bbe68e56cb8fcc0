"""C02: the global numbering of degrees of freedom is one bijection all processes agree on."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *

CFG = "CONSTANTS Topologies <- %s NP=%d Layouts=%s US=%s Barriers=%s\nSPECIFICATION %s\nINVARIANTS %s\n"
COMM = "NoMixing MessagesComplete EverybodyAgrees"


def body(c):
    e = exe()
    q = [("Shapes3", 3, "{0}", "{0}"), ("Line4", 3, "{0}", "{0}")]
    if THOROUGH:
        q += [("Tri4", 3, "{0}", "{0}"), ("Line4", 4, "{0}", "{0}")]
    for top, n, lay, us in q:
        c.model(tlc("GlobalNumbering", CFG % (top, n, lay, us, "TRUE", "Spec", COMM), deadlock=True), "numbering protocol %s on %d processes" % (top, n))
    c.model(tlc("GlobalNumbering", CFG % ("Shapes3" if THOROUGH else "Line3", 3 if THOROUGH else 2, "{0,1,2}", "{0,2}", "TRUE", "NumbersOnly", "NumberingOK")), "layouts")
    # the specification must notice a protocol without the barrier between the rounds
    if tlc("GlobalNumbering", CFG % ("Line4", 3, "{0}", "{0}", "FALSE", "Spec", "NoMixing")).ok:
        raise CheckError("specification accepts a protocol without barrier")
    d = scratch("c02")
    rng = c.rng
    cases = []
    for np_ in (1, 2, 3, 4):
        b = Batch(np_, d)
        for i in range({1: 4, 2: 8, 3: 12, 4: 12}[np_] * (4 if THOROUGH else 1)):
            dim = rng.choice([1, 2, 2, 3])
            nu = rng.randint(1, 3)
            # the schedule the model finds for a missing barrier: a chain of owners 0,1,2,0
            mesh = random_mesh(rng, dim, np_, curved=.2, how=rng.choice(["random", "random", "blocks", "empty"]), small=dim == 3)
            cmds = basis_commands(rng, nu, mesh) + ["dump"]
            idx = []
            for k in range(3 if not THOROUGH else 5):
                if k and rng.random() < .4:
                    cmds += basis_commands(rng, nu, mesh)
                us = sorted(rng.sample(range(nu), rng.randint(1, nu))) if rng.random() < .6 else []
                sh = list(us)
                rng.shuffle(sh)
                lay = rng.randint(0, 2)
                cmds.append("index A%d %s %d %d %s" % (rng.randint(0, 1), rng.choice(["new", "reset"]), lay, len(us), " ".join(map(str, sh))))
                idx.append((lay, us or list(range(nu))))
            b.add(mesh, cmds, nu=nu, jitter=rng.choice([0, 200, 1500]) if np_ > 1 else 0, seed=rng.randrange(1 << 30), tag=(dim, idx))
        for r in b.run(e):
            mesh = b.cases[r["case"]]["mesh"]
            if "error" in r:
                c.violation("numbering failed: " + r["error"][:300], {"mesh": mesh_key(mesh), "commands": b.cases[r["case"]]["commands"]})
                return
            dim, idx = b.cases[r["case"]]["tag"]
            ev = [x for x in r["ev"] if x["c"] in ("dump", "index")]
            k = 0
            for x in ev:
                if x["c"] == "index":
                    x["layout"], x["us"] = idx[k]
                    k += 1
                else:
                    for R in x["r"]:
                        for f in ("loc", "lfa"):
                            R.pop(f)
            cases.append({"dim": dim, "ev": ev})
    c.sample({"np": len(cases[-1]["ev"][0]["r"]), "layout": cases[-1]["ev"][1]["layout"], "unknowns": cases[-1]["ev"][1]["us"],
              "rank0": {k: v for k, v in cases[-1]["ev"][1]["r"][0].items() if k in ("nl", "inc")}})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "index" and len(ev["r"]) > 1:
                    for R in ev["r"]:
                        for row in R["tab"]:
                            if row[6] == 0:
                                row[4] += 1
                                return [x]
    judge(c, "NumberingTrace", cases, corrupt=corrupt, label="numberings on 1-4 processes")


main("C02", body)
