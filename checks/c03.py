"""C03: halo exchange lists of two processes mirror each other, also after additional pull requests."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *

CFG = "CONSTANTS NP=%d NE=%d MaxOps=%d\nSPECIFICATION Spec\n"


def body(c):
    e = exe()
    for np_, ne, n in ([(2, 2, 4)] if not THOROUGH else [(2, 2, 6), (2, 3, 4), (3, 2, 3)]):
        c.model(tlc("PullRequests", CFG % (np_, ne, n) + "INVARIANTS Mirror Sound\nPROPERTIES ProcessOK\nVIEW NoHist\n"),
                "PullRequests %d processes %d elements %d operations" % (np_, ne, n))
        c.model(tlc("DistMesh", "CONSTANTS MaxE=%d MaxN=3 NP=%d NodesPer=2\nSPECIFICATION Spec\nINVARIANT Mirror\n" % (ne, np_)), "DistMesh lists")
    # histories of requests: shapes enumerated by TLC from a fixed start, instantiated on random meshes below
    hs, r = gen_histories("PullRequests", (CFG % (2, 2, 4)) + "CONSTRAINT Emit\n", workers=1)
    c.model(r, "PullRequests histories")
    hs = sorted({json.dumps(h) for h in hs})
    c.cov["request_histories_from_model"] = len(hs)
    hs = [json.loads(h) for h in hs]
    d = scratch("c03")
    rng = c.rng
    cases = []
    for np_ in (1, 2, 3, 4):
        b = Batch(np_, d)
        base = 0                 # the reader hands out element identifiers in file order
        meta = []
        for i in range(120 if THOROUGH else 45):
            mesh = random_mesh(rng, rng.choice([1, 2, 2, 3]), np_, curved=.2, how=rng.choice(["random", "blocks", "random", "empty"]))
            sh = meshgen.shadows(mesh)
            ne = len(mesh["elems"])
            know = [{k for k in range(ne) if mesh["owner"][k] == p or p in sh[k]} for p in range(np_)]
            own = list(mesh["owner"])
            cmds = ["lists"]
            reqs = []
            for x in range(rng.choice([0, 0, 1, 3])):
                # ranks that could know the extra element: those with any element to copy the geometry from
                avail = [p for p in range(np_) if know[p]]
                o = rng.choice(avail)
                kn = [p for p in avail if p != o and rng.random() < .6]
                cmds.append("extra %d ,%s," % (o, ",".join(map(str, kn))))
                reqs.append(None)
                k = len(own)
                own.append(o)
                for p in kn + [o]:
                    know[p].add(k)
            h = rng.choice(hs)
            rounds = [[]]
            for op in h:
                if op[0] == "x":
                    rounds.append([])
                else:
                    p = op[1] - 1 if np_ >= 2 and rng.random() < .5 else rng.randrange(np_)
                    if know[p]:
                        # the same pair may return: repeated requests, requests of halo or own elements
                        pool = sorted(know[p])
                        k = pool[op[2] % len(pool)] if rng.random() < .3 else rng.choice(pool)
                        rounds[-1].append((p, k))
            for rd in rounds:
                if rng.random() < .4:
                    for p in range(np_):
                        for k in know[p]:
                            if rng.random() < .5:
                                rd.append((p, k))
                rng.shuffle(rd)
                cmds.append("req " + " ".join("%d:%d" % (p, base + k) for p, k in rd))
                reqs.append(rd)
                cmds.append("lists")
                if rng.random() < .3:
                    cmds.append("lists")
            b.add(mesh, cmds)
            meta.append((base, own, reqs))
            base += len(own)
        for r in b.run(e):
            mesh = b.cases[r["case"]]["mesh"]
            base, own, reqs = meta[r["case"]]
            if "error" in r:
                c.violation("processing pull requests failed: " + r["error"][:300], {"mesh": mesh_key(mesh), "commands": b.cases[r["case"]]["commands"]})
                return
            ev = []
            q = 0
            for x in r["ev"]:
                if x["c"] == "lists":
                    for R in x["r"]:
                        for f in ("push", "pull"):
                            R[f] = [[i - base + 1 if 0 <= i - base < len(own) else 0 for i in l] for l in R[f]]
                    ev.append(x)
                elif x["c"] in ("req", "extra"):
                    rd = reqs[q]
                    q += 1
                    if x["c"] == "extra":
                        if len({R["id"] for R in x["r"]}) != 1:
                            raise CheckError("extra element identifiers differ")
                    else:
                        ev.append({"c": "req", "req": [[k + 1 for p, k in rd if p == rank] for rank in range(np_)]})
            cases.append({"m": meshgen.as_json(mesh), "own": [o + 1 for o in own], "ev": ev})
    c.sample({"np": cases[-1]["m"]["np"], "owners": cases[-1]["own"], "events": cases[-1]["ev"][:4]})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"][1:]:
                if ev["c"] == "lists":
                    for R in ev["r"]:
                        for l in R["pull"]:
                            if len(l) > 1:
                                l[0], l[1] = l[1], l[0]
                                return [x]
    judge(c, "PullRequestsTrace", cases, corrupt=corrupt, label="request histories on 1-4 processes")


main("C03", body)
