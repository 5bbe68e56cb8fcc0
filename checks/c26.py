"""C26: k-shifted periodic boundaries: the matrix of the last wave vector, whatever was applied before, on any number of processes."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *
import meshgen

CFG = ("CONSTANTS N=%d NP=%d Wave={0,1,2,3} Applications=%d Accumulate=%s OwnRowsOnly=%s\nSPECIFICATION Spec\n"
       "INVARIANT LastWaveOnly\nINVARIANT Hermitian\nINVARIANT BlochCondition\n")


def bloch_exe():
    a = REPO + "/applications/DG-Max"
    return build("bloch", ["dist.cpp", "jitter.cpp"] + [a + "/Utils/%s.cpp" % x for x in (
        "MatrixBlocks", "KPhaseShift", "CGDGMatrixKPhaseShiftBuilder", "FaceKPhaseShiftBuilder")],
        "complex", extra_inc=[a], extra_flags=["-DBLOCH"])


def mesh_for(rng, dim, np_, once):
    """A periodic mesh; once: no two elements share more than one face."""
    while True:
        lo = 2
        if dim == 2:
            n = [rng.randint(lo, 4), rng.randint(1, 3)]
            kinds = rng.choice(["mixed", "cube", "simplex"])
        else:
            # conforming functions: DG-Max works on tetrahedra (the other shapes have no reference mapping of edges)
            kinds = rng.choice(["mixed", "cube", "cube", "simplex", "prism", "pyr"] if once else ["simplex"])
            n = [rng.randint(2, 3), 1, 1] if kinds in ("simplex", "pyr") else [rng.randint(2, 3), rng.randint(1, 3), 1]
        if rng.random() < .5:
            rng.shuffle(n)
        per = [x >= 2 and rng.random() < .8 for x in n]
        if not any(per):
            continue
        m = meshgen.grid(dim, n, per, rng, kinds=kinds)
        if len(m["elems"]) > (24 if dim == 2 else 18):
            continue
        if once:
            seen = [tuple(sorted(e for e, _ in f)) for f in m["faces"] if len(f) == 2]
            if len(set(seen)) < len(seen):
                continue
        meshgen.partition(m, np_, rng, rng.choice(["random", "random", "blocks", "empty"]))
        return m, [2 * x for x in n]


def waves(rng, dim):
    k = [[rng.randint(-5, 6) for _ in range(dim)] for _ in range(rng.randint(2, 4))]
    return k + [[0] * dim] * (rng.random() < .3)


def body(c):
    e = bloch_exe()
    c.model(tlc("Bloch", CFG % (3, 2, 3, "FALSE", "TRUE")), "ring of three cells on two processes, three wave vectors")
    c.model(tlc("Bloch", CFG % (4, 3, 3 if THOROUGH else 2, "FALSE", "TRUE")), "ring of four cells on three processes")
    for bad in (("TRUE", "TRUE"), ("FALSE", "FALSE")):
        if tlc("Bloch", CFG % ((3, 2, 2) + bad)).ok:
            raise CheckError("specification accepts %s" % (bad,))
    rng = c.rng
    d = scratch("c26")
    bs = []
    for np_ in (1, 2, 3, 4):
        b = Batch(np_, d)
        for i in range(9 * (6 if THOROUGH else 1)):
            dim = rng.choice([2, 2, 3])
            face = i % 3 == 0
            mesh, L = mesh_for(rng, dim, np_, face)
            Ls = " ".join(map(str, L))
            special = dim == 3 and any(len(x) in (5, 6) for x in mesh["elems"])
            lay = lambda: rng.randint(0, 2) if np_ == 1 else rng.randint(0, 1)
            seed = rng.randrange(1 << 20)
            ex = int(rng.random() < .5)
            app = lambda m, s: ["kapply %s %s %s" % (m, s, " ".join(map(str, k))) for k in waves(rng, dim)]
            if face:
                cmds = ["basis dg 1 -1"] + ["dump"]
                us = rng.choice(["0", "1 0", "1 1", "2 0 1"]) if len(mesh["elems"]) < 13 else rng.choice(["1 0", "1 1"])
                cmds += ["index R new %d %s" % (lay(), us), "setem 0 R R %d" % (seed + 9), "setfm 0 R R %d all" % seed,
                         "mat M new R R 0 0 all", "kface S R %d %d %s" % (seed, ex, Ls)] + app("M", "S")
                if rng.random() < .4:
                    cmds += ["mat M assemble"] + app("M", "S")
                if rng.random() < .4:
                    cmds += ["kface S R %d %d %s" % (seed, 1 - ex, Ls)] + app("M", "S")[:2]
            else:
                order = 1 if special else rng.choice([1, 2, 2, 3]) if dim == 2 else rng.choice([1, 2, 2] if len(mesh["elems"]) < 7 else [1, 1, 2])
                if dim == 3 and all(len(x) == 4 for x in mesh["elems"]) and rng.random() < .3:
                    order = 3
                cmds = ["basis dg 1 -1", "basis conf %d 1" % order, "dump", "index C new %d 1 1" % lay(), "index D new %d 1 0" % lay(),
                        "setem 0 C D %d" % seed, "mat M new C D 0 -1 none", "kcgdg S C D %d %d %s" % (seed, ex, Ls)] + app("M", "S")
                if rng.random() < .4:
                    cmds += ["mat M assemble"] + app("M", "S")
            b.add(mesh, cmds, nu=2, tag={"dim": dim, "per": L}, jitter=rng.choice([0, 300]) if np_ > 1 else 0, seed=rng.randrange(1 << 30))
        bs.append(b)
    rs = run_batches(c, e, bs, "applying the shifts failed")
    if rs is None:
        return
    cases = []
    for b, case, evs in rs:
        dim, out = case["tag"]["dim"], []
        for x in evs:
            if x["c"] == "basis":
                continue
            if x["c"] == "index":
                for R in x["r"]:
                    R.pop("g2l")
            elif x["c"] == "dump":
                for R in x["r"]:
                    nn = {y["id"]: len(y["nd"]) for y in R["el"]}
                    for f in R["fa"]:
                        f["in"] = [[el, lf, list(meshgen.FACES[(dim, nn[el])][lf])] for el, lf in f["in"]]
                    for f in R["ed"]:
                        f["in"] = [[el, lf, list(meshgen.EDGES[(dim, nn[el])][lf])] for el, lf in f["in"]]
                    for f in R["no"]:
                        f["in"] = [[el, lf, [lf]] for el, lf in f["in"]]
                    for f in ("loc", "lfa"):
                        R.pop(f)
            elif x["c"] == "mat":
                for R in x["r"]:
                    R.pop("rows", None)
            elif x["c"] == "kapply":
                x["q"] = [int(v) for v in x["a"][2:]]
            out.append(x)
        cases.append({"dim": dim, "per": case["tag"]["per"], "ev": out})
    c.sample({"commands": rs[-1][1]["commands"], "np": rs[-1][0].np})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "kapply":
                    for R in ev["r"]:
                        for row in R["rows"]:
                            for v in row[1]:
                                if v[2]:
                                    v[2] = -v[2]
                                    return [x]
    judge(c, "BlochTrace", cases, corrupt=corrupt, label="shifted matrices on 1-4 processes")


main("C26", body)
