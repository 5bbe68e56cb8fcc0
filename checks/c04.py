"""C04: parallel time stepping equals single-process time stepping."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from steps import *

CFG = "CONSTANTS NP=%d NE=%d Rounds=%d\nSPECIFICATION Spec\nINVARIANT GhostsAgree\n"


def history(rng, nv, length):
    """Operations; vectors are only read where ghosts matter after they have been synchronised."""
    cmds = ["setv %d %d" % (v, rng.randrange(20)) for v in range(nv)]
    fresh, copied = set(), False
    t = lambda: rng.randint(-3, 5) * 64
    for _ in range(length):
        v, w = rng.randrange(nv), rng.randrange(nv)
        k = rng.choice(["setv", "sync", "sync", "init", "iinit", "mass", "rhs", "der", "rhsl", "derl", "scale", "axpy", "step", "step", "toterr", "maxerr", "copies", "copied"])
        if k == "setv":
            cmds.append("setv %d %d" % (v, rng.randrange(20)))
            fresh.discard(v)
        elif k == "sync":
            cmds.append("sync %d" % v)
            fresh.add(v)
        elif k in ("init", "iinit"):
            cmds.append("%s %d %d %d" % (k, v, t(), rng.randint(0, 2)))
            fresh.add(v)
        elif k == "mass":
            cmds.append("mass %d" % v)
            fresh.add(v)
        elif k in ("rhs", "der"):
            if w not in fresh or v == w:
                cmds.append("sync %d" % w)
                fresh.add(w)
            if v != w:
                cmds.append("%s %d %d %d" % (k, w, v, t()))
                fresh.add(v)
        elif k in ("rhsl", "derl"):
            vs = [x for x in range(nv) if x != v and rng.random() < .7]
            if not vs:
                continue
            for x in vs:
                if x not in fresh:
                    cmds.append("sync %d" % x)
                    fresh.add(x)
            cmds.append("%s %d %d %d %s %s" % (k, v, t(), len(vs), " ".join(map(str, vs)), " ".join(str(rng.choice([-1, 1, 2])) for _ in vs)))
            fresh.add(v)
        elif k == "scale":
            cmds.append("scale %d %d" % (v, rng.choice([-1, 2])))
            fresh.add(v)
        elif k == "axpy":
            cmds.append("axpy %d %d %d" % (v, w, rng.choice([-2, -1, 1])))
            fresh.add(v)
        elif k == "step":
            if 0 not in fresh:
                cmds.append("sync 0")
            cmds.append("step %d %d" % (t(), rng.choice([16, 32, 64, 64, 128])))
            fresh = set(range(nv))
        elif k == "copies":
            cmds.append("copies %d" % v)
            copied = True
        elif k == "copied":
            if copied:
                cmds.append("copied %d" % v)
                fresh.discard(v)
        else:
            cmds.append("%s %d %d" % (k, v, t()))
    return cmds


def est_history(rng, nv):
    return ["setv %d %d" % (v, rng.randrange(20)) for v in range(nv)] + ["sync 0", "est 64", "step 0 64", "est 64", "toterr 0 64", "maxerr 0 0"]


def body(c):
    e = steps_exe()
    c.model(tlc("HaloSync", CFG % ((3, 2, 2) if not THOROUGH else (3, 3, 2))), "synchronisation of all halos on three processes", )
    rng = c.rng
    d = scratch("c04")
    bs = []
    for np_ in (1, 2, 3, 4):
        b = StepBatch(np_, d)
        for i in range({1: 8, 2: 14, 3: 14, 4: 14}[np_] * (6 if THOROUGH else 1)):
            dim = rng.choice([1, 2, 2, 3])
            mesh = random_mesh(rng, dim, np_, curved=.2, small=dim == 3)
            tab = tableau(rng, 1)
            nv = tab["s"] + 1
            cmds = est_history(rng, nv) if i % 5 == 4 else history(rng, nv, 8)
            nu = rng.randint(1, 3)
            b.add(mesh, cmds, nu=nu, order=rng.randint(0, 1 if dim == 3 or nu == 3 else 2), both=rng.randint(0, 1), tab=tab, tag=dim,
                  jitter=rng.choice([0, 200]) if np_ > 1 else 0, seed=rng.randrange(1 << 30))
        bs.append(b)
    rs = run_batches(c, e, bs, "time stepping failed")
    if rs is None:
        return
    cases = [as_case(case, evs) for _, case, evs in rs]
    c.sample({"commands": rs[-1][1]["commands"], "np": rs[-1][0].np})

    def corrupt(cs):
        for x in reversed(cs):
            for ev in x["ev"]:
                if ev["c"] == "step" and len(ev["r"]) > 1:
                    for R in ev["r"]:
                        for v in R["v"]:
                            if v[1] == 0:
                                v[2][0][0] += 64
                                return [x]
    judge(c, "SteppingTrace", cases, corrupt=corrupt, label="time stepping on 1-4 processes")


main("C04", body)
