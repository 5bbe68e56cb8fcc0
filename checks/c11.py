"""C11: assembled global matrices are the sum of all local matrices."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *
import meshgen

CFG = "CONSTANTS NE=%d NP=%d Values=%s Rounds=%d OwnerOnly=%s\nSPECIFICATION Spec\nINVARIANT AssembledIsSum\n"


def face_parts(dim, nn, lf):
    fn = meshgen.FACES[(dim, nn)][lf]
    fe = [i for i, ed in enumerate(meshgen.EDGES.get((dim, nn), [])) if set(ed) <= set(fn)]
    return sorted(fn), fe


def body(c):
    e = exe()
    c.model(tlc("Assembly", CFG % (3, 2, "{1,3}", 2, "TRUE")), "assembly by two processes, changing local matrices")
    c.model(tlc("Assembly", CFG % (3, 3, "{1}", 2, "TRUE") if not THOROUGH else CFG % (4, 3, "{1}", 2, "TRUE")), "assembly by three processes")
    if tlc("Assembly", CFG % (3, 2, "{1}", 1, "FALSE")).ok:
        raise CheckError("specification accepts faces counted by both sides")
    rng = c.rng
    d = scratch("c11")
    bs = []
    for np_ in (1, 2, 3, 4):
        b = Batch(np_, d)
        for i in range({1: 10, 2: 10, 3: 10, 4: 10}[np_] * (5 if THOROUGH else 1)):
            dim = rng.choice([1, 2, 2, 3])
            nu = rng.choice([1, 2, 2, 3])
            mesh = random_mesh(rng, dim, np_, small=True, curved=.25)
            bc = small_bases(rng, nu, mesh)
            kinds = kinds_after(bc, nu)
            cmds = bc + ["dump"]
            lay = lambda: rng.randint(0, 2) if np_ == 1 else rng.randint(0, 1)
            us = {}

            def index(n, mode, same=None):
                a, u = same if same else pick_unknowns(rng, nu)
                cmds.append("index %s %s %d %s" % (n, mode, lay(), a))
                us[n] = (a, u)
            index("R", "new")
            index("C", "new", us["R"] if rng.random() < .5 else None)
            faces = None
            for k in range(2):
                if k and rng.random() < .3:
                    bc = small_bases(rng, nu, mesh)
                    kinds = kinds_after(bc, nu)
                    cmds += bc + ["dump"]
                    index("R", "reset")
                    index("C", "reset", us["R"] if rng.random() < .5 else None)
                elif k and rng.random() < .5:
                    index("R", "reset")
                row, col = rng.choice([("R", "R"), ("R", "C"), ("C", "R")])
                withface = us[row][1] == us[col][1] and rng.random() < .8
                seed = rng.randrange(1 << 20)
                ei, fi = rng.choice([0, 1, 2, 0, 1, -1]) if withface else rng.randint(0, 2), rng.randint(0, 2) if withface else -1
                # other slots hold other values
                for s in {0, ei} - {-1}:
                    cmds.append("setem %d %s %s %d" % (s, row, col, seed + s))
                # PETSc stores zeros on the diagonal: with two numberings only full coupling (see known finding below)
                ct, t = coupling(rng, us[row][1], us[col][1], kinds, np_, how=None if row == col else "all")
                if row != col and ct != "all":
                    withface, fi, ei = False, -1, max(ei, 0)
                    cmds.append("setem %d %s %s %d" % (ei, row, col, seed + 5))
                if withface:
                    cmds.append("setfm %d %s %s %d %s" % (fi, row, col, seed + 77, ct))
                    if ct == "none":
                        ct = "t " + " ".join("0" for r in t for _ in r)
                elif ct == "all":
                    ct = "none"     # no face matrix: the default coupling
                cmds.append("mat M%d new %s %s %d %d %s" % (k, row, col, ei, fi, ct))
                if rng.random() < .5:
                    if ei >= 0:
                        cmds.append("setem %d %s %s %d" % (ei, row, col, seed + 1000))
                    if withface and rng.random() < .7:
                        cmds.append("setfm %d %s %s %d %s" % (fi, row, col, seed + 1077, ct if ct.startswith("t") or ct == "all" else "none"))
                    if ct.startswith("t"):
                        cmds.append("mat M%d %s" % (k, rng.choice(["assemble", "reinit 0"])))
                    else:
                        cmds.append("mat M%d %s" % (k, rng.choice(["assemble", "reinit 2", "reinit 1", "reinit 0"])))
                cmds.append("bc M%d" % k)
                # a second numbering of the same matrix
                if rng.random() < .3:
                    cmds.append("index R reset %d %s" % (lay(), us["R"][0]))
                    cmds.append("mat M%d reinit %d" % (k, 0 if ct.startswith("t") else 2))
            b.add(mesh, cmds, nu=nu, tag=dim, jitter=rng.choice([0, 300]) if np_ > 1 else 0, seed=rng.randrange(1 << 30))
        bs.append(b)
    # one fixed case: two numberings of the same unknowns and a face matrix that is declared not to couple
    mesh = meshgen.grid(1, [3], [False], random.Random(1), kinds="mixed", rotate=False, permute=False)
    meshgen.partition(mesh, 1, random.Random(1), "blocks")
    b = Batch(1, scratch("c11k"))
    b.add(mesh, ["basis dg 1 -1", "index R new 0 0", "index C new 2 0", "setem 0 R C 5", "setfm 0 R C 6 none",
                 "mat M new R C 0 0 t 0 0 0 0"], nu=2, tag=1)
    r = b.run(e)[0]
    if "error" in r:
        c.violation("zero face matrix with two numberings: " + r["error"][:300], {"commands": b.cases[0]["commands"]},
                    key="c11-zero-on-diagonal" if "New nonzero" in r["error"] and "mat M new R C 0 0 t" in r["error"] else None)
    rs = run_batches(c, e, bs, "assembly failed")
    if rs is None:
        return
    cases = []
    for b, case, evs in rs:
        dim = case["tag"]
        out = []
        for x in evs:
            if x["c"] == "basis":
                continue
            if x["c"] == "index":
                for R in x["r"]:
                    R.pop("g2l")
            elif x["c"] == "dump":
                for R in x["r"]:
                    nn = {y["id"]: len(y["nd"]) for y in R["el"]}
                    for f in R["fa"]:
                        f["fn"], f["fe"] = face_parts(dim, nn[f["in"][0][0]], f["in"][0][1])
                    for f in ("loc", "lfa", "ed", "no"):
                        R.pop(f)
            out.append(x)
        cases.append({"dim": dim, "ev": out})
    c.sample({"commands": rs[-1][1]["commands"], "np": rs[-1][0].np})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "mat" and len(ev["r"]) > 1:
                    for R in ev["r"]:
                        for row in R.get("rows", []):
                            if row[1]:
                                row[1][0][1] += 1
                                return [x]
    judge(c, "AssemblyTrace", cases, corrupt=corrupt, label="matrices on 1-4 processes")


main("C11", body)
