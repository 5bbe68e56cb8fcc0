"""C15: local numbering of unknown subsets matches the stored layout."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *



def cfg(n, emit):
    return ("CONSTANTS Unknowns = {0,1,2}\n Objects <- MCObjects\n MaxOps = %d\nSPECIFICATION Spec\n" % n) + \
        ("CONSTRAINT Emit\n" if emit else "INVARIANTS Bijection NotSelected MappingIs\nVIEW NoHist\n")


def body(c):
    e = exe()
    c.model(tlc("LocalIndexMC", cfg(4, False)), "all selections, objects and orders of re-initialisation")
    hs, r = gen_histories("LocalIndexMC", cfg(4 if THOROUGH else 3, True))
    c.model(r, "histories")
    rng = c.rng
    rng.shuffle(hs)
    d = scratch("c15")
    b = Batch(1, d)
    # every history of the model, for elements and faces, spread over meshes with different bases
    def ulist(us):
        us = list(us)
        rng.shuffle(us)
        return " ".join(map(str, [len(us)] + us))
    per = 150 if not THOROUGH else 900
    chunks = [hs[i:i + per] for i in range(0, len(hs), per)] or [[]]
    for ch in chunks:
        dim = rng.choice([1, 2, 2, 3])
        mesh = random_mesh(rng, dim, 1, small=True)
        nu = 3
        cmds = small_bases(rng, nu, mesh, rng.choice(["mixed", "mixed", "conf", "dg"])) + ["conv"]
        ne, nf = len(mesh["elems"]), len(mesh["faces"])
        both = [i + 1 for i, f in enumerate(mesh["faces"]) if len(f) == 2] or [1]
        for which in ("eli", "fli"):
            for h in ch:
                pick = {0: 0, 1: rng.randint(1, ne if which == "eli" else nf), 2: rng.randint(1, ne) if which == "eli" else rng.choice(both)}
                cmds.append(which + " A new")
                for o in h:
                    cmds.append("%s A %s" % (which, ("u " + ulist(o["s"])) if o["op"] == "u" else "e %d" % pick[o["k"]]))
        b.add(mesh, cmds, nu=nu)
    # long random histories, changing bases, combined re-initialisation
    for i in range(60 if THOROUGH else 16):
        dim = rng.choice([1, 2, 2, 3])
        mesh = random_mesh(rng, dim, 1, small=True)
        nu = rng.randint(1, 4)
        ne, nf = len(mesh["elems"]), len(mesh["faces"])
        cmds = small_bases(rng, nu, mesh) + ["conv", "eli A new", "fli A new"]
        for _ in range(40):
            if rng.random() < .08:
                # new bases: both objects must be re-initialised before they are looked at
                cmds += small_bases(rng, nu, mesh) + ["conv", "eli A e %d" % rng.randint(1, ne), "fli A e %d" % rng.randint(1, nf)]
            us = rng.sample(range(nu), rng.randint(0, nu))
            k = rng.random()
            w = rng.choice(["eli", "fli"])
            n = ne if w == "eli" else nf
            if k < .4:
                cmds.append("%s A u %s" % (w, ulist(us)))
            elif k < .8:
                cmds.append("%s A e %d" % (w, rng.choice([0] + list(range(1, n + 1)) * 2)))
            elif k < .95:
                cmds.append("eli A both %d %s" % (rng.randint(0, ne), ulist(us)))
            else:
                cmds.append("eli A full %d" % nu)
        b.add(mesh, cmds, nu=nu)
    rs = run_batches(c, e, [b], "local indexing failed")
    if rs is None:
        return
    cases = []
    for _, case, evs in rs:
        out = []
        for x in evs:
            if x["c"] == "basis":
                continue
            y = dict(x["r"][0], c=x["c"])
            if x["c"] != "conv":
                a = x["a"]
                y["op"] = a[1]
                y["k"], y["us"] = 0, []
                if a[1] == "u":
                    y["us"] = [int(v) for v in a[3:]]
                elif a[1] == "full":
                    y["us"] = list(range(int(a[2])))
                elif a[1] == "e":
                    y["k"] = int(a[2])
                elif a[1] == "both":
                    y["k"], y["us"] = int(a[2]), [int(v) for v in a[4:]]
            out.append(y)
        cases.append({"ev": out})
    c.sample({"commands": rs[-1][1]["commands"][:30]})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "fli" and len(ev["off"]) == 2 and ev["off"][1][0] > 0:
                    ev["off"][1][0] += 1
                    return [x]
    judge(c, "LocalIndexTrace", cases, corrupt=corrupt, label="local numberings")


main("C15", body)
