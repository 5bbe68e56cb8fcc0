"""C12: global vectors gather and scatter without loss."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *

CFG = "CONSTANTS NE=%d NP=%d Values=%s Rounds=%d OwnerOnly=%s\nSPECIFICATION Spec\nINVARIANT AssembledIsSum\n"


def body(c):
    e = exe()
    c.model(tlc("Assembly", CFG % (3, 2, "{1,3}", 2, "TRUE")), "assembly by two processes, changing local vectors")
    rng = c.rng
    d = scratch("c12")
    bs = []
    for np_ in (1, 2, 3, 4):
        b = Batch(np_, d)
        for i in range({1: 12, 2: 14, 3: 14, 4: 14}[np_] * (5 if THOROUGH else 1)):
            dim = rng.choice([1, 2, 2, 3])
            nu = rng.choice([1, 2, 3, 3])
            mesh = random_mesh(rng, dim, np_, curved=.2, small=dim == 3)
            cmds = small_bases(rng, nu, mesh) + ["counts"]
            a, us = pick_unknowns(rng, nu)
            cmds.append("index R new %d %s" % (rng.randint(0, 2), a))
            for t in range(3):
                cmds.append("settiv %d %d" % (t, rng.randrange(1000)))
            ei, fi = rng.randint(-1, 2), rng.randint(-1, 2)
            for s in {0, ei} - {-1}:
                cmds.append("setev %d R %d" % (s, rng.randrange(1 << 20)))
            for s in {0, fi} - {-1}:
                cmds.append("setfv %d R %d" % (s, rng.randrange(1 << 20)))
            cmds.append("vec V new R %d %d" % (ei, fi))
            for _ in range(6):
                k = rng.choice(["assemble", "construct", "write", "set", "round", "change", "reset"])
                t = rng.randint(0, 2)
                u = rng.choice([-1, -1, rng.choice(us)])
                if k == "change":
                    if ei >= 0:
                        cmds.append("setev %d R %d" % (ei, rng.randrange(1 << 20)))
                    if fi >= 0:
                        cmds.append("setfv %d R %d" % (fi, rng.randrange(1 << 20)))
                    cmds.append("vec V " + rng.choice(["assemble", "reinit"]))
                elif k == "reset":
                    cmds.append("index R reset %d %s" % (rng.randint(0, 2), a))
                    cmds.append("vec V reinit")
                elif k == "round":
                    cmds.append("vec V construct %d %d" % (t, u))
                    cmds.append("vec V write %d %d" % (rng.choice([t, t, rng.randint(0, 2)]), u))
                elif k == "set":
                    cmds.append("vec V set %d" % rng.randrange(1000))
                    cmds.append("vec V write %d %d" % (t, u))
                elif k == "assemble":
                    cmds.append("vec V assemble")
                else:
                    cmds.append("vec V %s %d %d" % (k, t, u))
            b.add(mesh, cmds, nu=nu, tag=dim, jitter=rng.choice([0, 300]) if np_ > 1 else 0, seed=rng.randrange(1 << 30))
        bs.append(b)
    rs = run_batches(c, e, bs, "vector operation failed")
    if rs is None:
        return
    cases = []
    for b, case, evs in rs:
        out = []
        for x in evs:
            if x["c"] == "basis":
                continue
            if x["c"] == "index":
                for R in x["r"]:
                    R.pop("g2l")
            out.append(x)
        cases.append({"ev": out})
    c.sample({"commands": rs[-1][1]["commands"], "np": rs[-1][0].np})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "vec" and ev["a"][1] == "write" and len(ev["r"]) > 1:
                    for R in ev["r"]:
                        for t in R["t"]:
                            if t[1] == 0 and t[2][0]:
                                t[2][0][0] += 1
                                return [x]
    judge(c, "VectorTrace", cases, corrupt=corrupt, label="vectors on 1-4 processes")


main("C12", body)
