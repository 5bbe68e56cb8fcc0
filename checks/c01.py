"""C01: the refinement forest."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *


def cfg(ops, ents, lvl, emit):
    c = "CONSTANTS MaxOps = %d\n MaxEnts = %d\n MaxLvl = %d\nSPECIFICATION Spec\n" % (ops, ents, lvl)
    return c + ("CONSTRAINT Emit\n" if emit else "INVARIANTS WellFormed VisitCounts Ordering\nVIEW NoHist\n")


def line(h, every):
    t = []
    for e in h:
        s = e["op"]
        for k in ("q", "n", "l"):
            if k in e:
                s += " %d" % e[k]
        t.append(s + (" !" if every else ""))
    return " ".join(t) + ("" if every else " !")


def body(c):
    exe = build("leveltree", ["leveltree.cpp", REPO + "/kernel/Logger.cpp"], kernel=False)
    c.model(tlc("LevelTree", cfg(7 if THOROUGH else 5, 6 if THOROUGH else 5, 4, False)), "LevelTree invariants")
    hs, r = gen_histories("LevelTree", cfg(5 if THOROUGH else 4, 6, 3, True))
    c.model(r, "LevelTree exhaustive histories")
    lines = [line(h, False) for h in hs]
    # long random behaviours of the same specification (TLC simulation)
    n = 1500 if THOROUGH else 300
    hs2, r2 = gen_histories("LevelTree", cfg(14, 14, 5, True),
                            args=["-simulate", "num=%d" % n, "-depth", "15", "-seed", str(SEED)])
    hs2 = [h for h in hs2][:n]
    if len(hs2) < n // 2:
        log(r2.out[-3000:])
        raise CheckError("simulation produced too few behaviours")
    lines += [line(h, True) for h in hs2]
    c.cov["histories_exhaustive"], c.cov["histories_simulated"] = len(hs), len(hs2)
    r = run([exe], stdin="\n".join(lines) + "\n", timeout=300)
    outl = r.out.splitlines()
    if r.rc != 0:
        c.violation("the implementation crashed or did not terminate", {"history": lines[min(len(outl), len(lines) - 1)], "stderr": r.err[-2000:]})
        return
    cases = [json.loads(l) for l in outl]
    c.sample({"history": lines[-1]})

    def corrupt(cs):
        for x in cs:
            for e in x["ev"]:
                if "o" in e and len(e["o"]["rpost"]) > 2:
                    e["o"]["rpost"].reverse()
                    if e["o"]["rpost"] != e["o"]["post"][::-1]:
                        return [x]
        return None
    judge(c, "LevelTreeTrace", cases, corrupt=corrupt, label="forest histories")


main("C01", body)
