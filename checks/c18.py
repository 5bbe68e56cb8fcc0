"""C18: the time loop hits every output time and the final time; schemes are evaluated as prescribed."""
import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from steps import *

LOOP = "CONSTANTS MaxF=%d MaxG=%d Adaptive=%s\nSPECIFICATION Spec\nINVARIANT StepsSmall\nINVARIANT NeverPast\nINVARIANT FramesRight\nINVARIANT AllAtEnd\nCHECK_DEADLOCK FALSE\n"
FIRST = 16       # limit of the first adaptive step of a case, in 64ths


def adaptive_history(rng, nv):
    """Scripted accept/reject decisions. est: the step size the code will try next, at least FIRST after every case."""
    cmds = ["setv %d %d" % (v, rng.randrange(20)) for v in range(nv)] + ["sync 0"]
    est, t = None, rng.randint(-2, 3) * 64
    for i in range(rng.randint(2, 4)):
        dmax = FIRST if est is None else rng.choice([16, 32, 64])
        dt = dmax if est is None else min(est, dmax)
        s = []
        while dt > 2 and rng.random() < .45 and len(s) < 3:
            s.append(0)
            dt //= 2
        s.append(rng.choice([1, 2]))
        est = dt * s[-1]
        cmds.append("stepa %d %d %d %s" % (t, dmax, len(s), " ".join(map(str, s))))
        t += dt
    while est < FIRST:
        cmds.append("stepa %d 64 1 2" % t)
        t += est
        est *= 2
    return cmds


def loops(rng, n, adaptive):
    """(t0, t1, dt, frames, script) for runs of the whole time loop."""
    out = []
    fixed = [(0, 10, .1, 1), (0, 100, .1, 10), (0, 1, .01, 1), (0, 1, .3, 0), (0, 10, .1, 0), (0, 1, 2., 3), (-1, 1, .07, 4), (5, 6, .05, 20),
             (0, 3, .1, 7), (1000, 1001, .01, 4), (0, 1e-6, 1e-8, 5), (0, 1e5, 100., 8),
             (1e6, 1e6 + .1, .001, 3), (1e5, 1e5 + .01, 5e-5, 3), (1000, 1000.01, 1e-5, 0), (0, 1e-9, 1e-11, 5), (0, 1e6, 777., 3), (1e4, 1e4 + .01, 5e-5, 4)]
    for i in range(n):
        if i < len(fixed):
            t0, t1, dt, fr = fixed[i]
        else:
            t0 = rng.choice([0, 0, rng.uniform(-5, 5), rng.choice([.1, -.3, 7, 100, 1e4, -1e6])])
            T = rng.choice([1, 1, .1, 10, 3, rng.uniform(.5, 20), 1e-3, 1e3])
            t1 = t0 + T
            steps = rng.choice([1, 2, 3, 5, 7, 10, 33, 100, 400])
            dt = T / steps * rng.choice([1, 1, 1.0000001, .999, 1.4, 1.01])
            fr = rng.choice([0, 1, 1, 2, 3, 5, 8, 13])
        if adaptive and (t1 - t0) / dt > 150:
            dt = (t1 - t0) / 100
        script = []
        if adaptive:
            script = [rng.choice([0, 1, 1, 2]) for _ in range(rng.randint(0, 25))]
        out.append((t0, t1, dt, fr, script))
    return out


def body(c):
    e = steps_exe()
    c.model(tlc("TimeLoop", LOOP % (4, 5, "TRUE")), "adaptive time loop")
    c.model(tlc("TimeLoop", LOOP % (6, 12, "FALSE")), "time loop with equal steps")
    rng = c.rng
    d = scratch("c18")
    # one step: stages, accepted and rejected steps
    bs = []
    for np_ in (1, 2, 3):
        b = StepBatch(np_, os.path.join(d, "step%d" % np_))
        os.makedirs(b.d)
        for i in range((16 if np_ == 1 else 8) * (6 if THOROUGH else 1)):
            dim = rng.choice([1, 1, 2, 2, 3])
            mesh = random_mesh(rng, dim, np_, small=True)
            tab = tableau(rng, 1)
            nv = tab["s"] + 1
            if i % 6 == 5:
                cmds = ["setv %d %d" % (v, rng.randrange(20)) for v in range(nv)] + ["sync 0", "est 64", "step 0 64", "est 64"]
            elif i % 3 == 2:
                cmds = ["setv %d %d" % (v, rng.randrange(20)) for v in range(nv)] + ["sync 0"]
                t = 0
                for _ in range(4):
                    dt = rng.choice([16, 32, 64, 128])
                    cmds.append("step %d %d" % (t, dt))
                    t += dt
            else:
                cmds = adaptive_history(rng, nv)
            b.add(mesh, cmds, nu=rng.randint(1, 2), order=rng.randint(0, 1), both=rng.randint(0, 1), tab=tab, seed=rng.randrange(1 << 30))
        b.args = ["--dt", "1"]
        bs.append(b)
    rs = run_batches(c, e, bs, "time step failed")
    if rs is None:
        return
    cases = [as_case(case, evs) for _, case, evs in rs]
    c.sample({"commands": rs[0][1]["commands"]})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "stepa" and 0 in ev["x"][3:]:
                    ev["r"][0]["v"][0][2][0][0] += 1
                    return [x]
    judge(c, "SteppingTrace", cases, corrupt=corrupt, label="single steps")
    # the whole loop
    bs = []
    n = 40 * (6 if THOROUGH else 1)
    for np_, adaptive in ((1, False), (2, False), (1, True), (2, True)):
        b = StepBatch(np_, os.path.join(d, "loop%d%d" % (np_, adaptive)))
        os.makedirs(b.d)
        for t0, t1, dt, fr, script in loops(rng, n if np_ == 1 else n // 3, adaptive):
            mesh = random_mesh(rng, 1, np_, small=True)
            tab = tableau(rng, 1)
            x = "solve %r %r %r %d %d %s" % (t0, t1, dt, fr, len(script), " ".join(map(str, script)))
            b.add(mesh, [x], tab=tab, order=0, tag=(t0, t1, dt, fr))
        b.args = ["--dt", "1", "--error", "1"] if adaptive else []
        bs.append(b)
    rs = run_batches(c, e, bs, "time loop failed")
    if rs is None:
        return
    cases = []
    for b, case, evs in rs:
        t0, t1, dt, fr = case["tag"]
        T = t1 - t0
        ev = evs[-1]
        lim = min(dt / T * (1 + 1e-9), 1)
        y = {"c": "solve", "f": fr, "dt": int(math.ceil(lim * (1 << 20))) + 2, "tec": int(max(abs(t0), abs(t1)) <= 20 * T), "r": ev["r"], "a": ev["a"]}
        cases.append({"ev": [y]})
    c.sample(cases[0])

    def corrupt2(cs):
        for x in cs:
            if len(x["ev"][0]["r"][0]["frames"]) > 2:
                del x["ev"][0]["r"][0]["frames"][1]
                return [x]
    judge(c, "TimeLoopTrace", cases, corrupt=corrupt2, label="time loops", keyfn=lambda bad, pi: None)


main("C18", body)
