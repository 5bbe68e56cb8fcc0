"""C13: refinement maps divide an element exactly and agree with the division of its faces."""
import sys, os, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *

CFG = "CONSTANTS MaxOps = %d\nSPECIFICATION Spec\nINVARIANTS Fill NoneEmpty Apart Valid\n"


def body(c):
    e = build("refmaps", ["refmaps.cpp"], "real")
    c.model(tlc("RefinementMC", CFG % (3 if THOROUGH else 2)), "all histories of divisions of a triangle or a square")
    pts = [tuple(c.rng.randint(-6, 6) for _ in range(3)) for _ in range(60 if THOROUGH else 20)] + [(0, 0, 0), (4, 4, 4), (-4, -4, -4)]
    r = run([e], stdin="\n".join("%d %d %d" % p for p in pts) + "\n", timeout=300)
    if r.rc != 0:
        return c.violation("refinement maps cannot be read", {"output": (r.out + r.err)[-2000:]})
    maps = [json.loads(x) for x in r.out.splitlines() if x.startswith("{")]
    cases = []
    brief = lambda m: {"v": m["big"]["vertices"], "new": m["nodes"], "subs": [{"nd": s["nodes"]} for s in m["subs"]]}
    none = {"v": [], "new": [], "subs": []}
    for m in maps:
        ev = {"name": m["name"], "shape": m["big"]["shape"], "k": int(re.search(r"\d+$", m["name"]).group()), "v": m["big"]["vertices"], "f": m["big"]["facets"],
              "new": m["nodes"], "count": m["new"], "nsub": m["nsub"], "points": len(pts),
              "subs": [{"nd": s["nodes"], "v": s["geo"]["vertices"], "f": s["geo"]["facets"], "corners": s["corners"], "at": s["at"]} for s in m["subs"]],
              "faces": [{"map": brief(maps[f["map"] - 1]) if f["map"] else none, "nd": f["nodes"], "sub": f["sub"]} for f in m["faces"]]}
        cases.append({"ev": [ev]})

    def corrupt(cs):
        m = [x for x in cs if x["ev"][0]["name"] == "Triangle4"][0]["ev"][0]
        m["faces"][0]["nd"] = m["faces"][0]["nd"][::-1]
        return cs
    judge(c, "RefinementTrace", cases, corrupt=corrupt, label="refinement maps")
    c.sample({"maps": [m["name"] for m in maps], "points": len(pts)})


main("C13", body)
