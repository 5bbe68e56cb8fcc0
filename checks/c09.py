"""C09: SparseUnionFind answers = equivalence closure of the unions."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *


def cfg(idx, n, emit):
    c = "CONSTANTS Idx = {%s}\n MaxOps = %d\nSPECIFICATION Spec\n" % (",".join(map(str, idx)), n)
    return c + ("CONSTRAINT Emit\n" if emit else "INVARIANTS Closure Partition NonSingleton\nVIEW NoHist\n")


def body(c):
    lib = REPO + "/applications/Preprocessor/lib"
    exe = build("unionfind", ["unionfind.cpp", lib + "/utils/SparseUnionFind.cpp"], kernel=False, extra_inc=[lib])
    # 1. the specification itself
    c.model(tlc("UnionFind", cfg(range(5 if THOROUGH else 4), 12 if THOROUGH else 8, False)), "UnionFind closure")
    # 2. all behaviours of the specification up to a bound, replayed
    hs, r = gen_histories("UnionFind", cfg(range(4), 4 if THOROUGH else 3, True))
    c.model(r, "UnionFind histories")
    lines = []
    for h in hs:
        t = []
        for e in h:
            t.append("u %d %d" % (e["x"], e["y"]) if e["op"] == "u" else "f %d" % e["x"])
        lines.append(" ".join(t) + " o")
    # 3. long random histories, balanced / chain / adversarial, with sparse large indices
    rng = c.rng
    for k in range(400 if THOROUGH else 120):
        n = rng.choice([4, 6, 10, 16])
        pool = rng.sample(range(0, 2 * 10 ** 9), n) if rng.random() < .5 else list(range(n))
        t = []
        style = rng.random()
        m = rng.randint(3, 2 * n)
        for i in range(m):
            x = rng.random()
            if x < .55:
                if style < .3:
                    a, b = pool[i % n], pool[(i + 1) % n]
                elif style < .6:     # binomial merging: builds deep trees of equal rank
                    s = 1 << rng.randint(0, 3)
                    j = rng.randrange(0, n)
                    a, b = pool[j], pool[(j ^ s) % n]
                else:
                    a, b = rng.choice(pool), rng.choice(pool)
                if rng.random() < .5:
                    a, b = b, a
                t.append("u %d %d" % (a, b))
            elif x < .7:
                t.append("f %d" % rng.choice(pool))
            elif x < .85:
                t.append("s %d %d" % (rng.choice(pool), rng.choice(pool)))
            else:
                t.append("o")
        lines.append(" ".join(t) + " o o")
    # binomial tree merges of 16/32 elements with observation only at the end (long parent chains)
    for n in (16, 32):
        for rep in range(4):
            pool = list(range(n))
            rng.shuffle(pool)
            t = []
            s = 1
            while s < n:
                for j in range(0, n, 2 * s):
                    x, y = pool[j], pool[j + s]
                    t.append("u %d %d" % ((x, y) if rng.random() < .5 else (y, x)))
                s *= 2
            lines.append(" ".join(t) + " o o")
    r = run([exe], stdin="\n".join(lines) + "\n", timeout=120)
    if r.rc != 0:
        n = len(r.out.splitlines())
        c.violation("the implementation crashed or did not terminate", {"history": lines[min(n, len(lines) - 1)], "stderr": r.err[-2000:]})
        return
    cases = [json.loads(l) for l in r.out.splitlines()]
    c.sample({"history": lines[-1], "last_event": cases[-1]["ev"][-1]})

    def corrupt(cs):
        x = cs[-1]
        x["ev"][-1]["it"] = x["ev"][-1]["it"][:-1]
        return [x]
    judge(c, "UnionFindTrace", cases, corrupt=corrupt, label="union-find histories")


main("C09", body)
