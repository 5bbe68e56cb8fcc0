"""C34: fluxes through the boundaries of zones."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from maxwell import *
NAMES = ["Main", "left", "zone-2", "B_3", "4"]


def body(c):
    e = facets_exe()
    c.model(tlc("FluxFacetsMC", "CONSTANTS NE = %d NZ = 3 NP = %d\nSPECIFICATION Spec\nINVARIANTS Together Balance\n" % ((5, 3) if THOROUGH else (4, 2))),
            "elements in a row or a ring, all zones and owners")
    rng = c.rng
    batches = [MaxwellBatch(k, scratch("c34_%d" % k)) for k in (1, 2, 3, 4)]
    for i in range(600 if THOROUGH else 120):
        b = rng.choice(batches)
        m = random_mesh(rng, rng.choice([2, 2, 3]), b.np)
        meshgen.zones(m, rng, rng.sample(NAMES, rng.randint(1, 5)))
        if rng.random() < .5:       # zones that are compact
            n = len(m["zones"])
            m["zone"] = [min(n - 1, k * n // max(1, len(m["zone"]))) for k in range(len(m["zone"]))]
        b.add(m, 1, 0, 0, 1, ["flux %d %d" % (rng.randint(1, 9), rng.random() < .5)])
    rs = run_batches(c, e, batches, "fluxes through facets failed")
    if rs is None:
        return
    cases, n = [], {"facets": 0, "faces": 0, "processes": 0}
    for _, case, evs in rs:
        m = case["mesh"]
        j = meshgen.as_json(m)
        mesh = {"fa": j["fa"], "co": j["co"], "zn": [z + 1 for z in m["zone"]], "names": m["zones"]}
        out = []
        for ev in evs:
            rr = []
            for r in ev["r"]:
                names = [x[len("flux-"):].split("--") if x.startswith("flux-") else [x, "", ""] for x in r["names"]]
                rr.append({"names": names, "fl": r["fl"]})
                n["processes"] += 1
            n["facets"] += len(rr[0]["fl"])
            n["faces"] += len(m["faces"])
            out.append({"w": int(ev["a"][0]) * (2 if ev["a"][1] == "1" else 1), "r": rr})
        cases.append({"mesh": mesh, "ev": out})
    c.sample(n)

    def corrupt(cs):
        for x in cs:
            if x["ev"][0]["r"][0]["fl"]:
                x["ev"][0]["r"][0]["fl"][0][2] += 1
                return [x]
    judge(c, "FluxFacetsTrace", cases, corrupt=corrupt, label="fluxes of facets")


main("C34", body)
