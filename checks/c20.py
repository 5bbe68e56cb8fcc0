"""C20: points, normals and Jacobians of elements and faces."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *


def body(c):
    e = exe()
    c.model(tlc("FaceGeometryModel", "SPECIFICATION Spec\nINVARIANTS Consistent Partition Outward\n"),
            "all reference shapes, facets, vertex orders and points in quarters")
    rng = c.rng
    d = scratch("c20")
    b = Batch(1, d)
    cmds = ["dump", "refgeo", "elpts", "facepts"]
    # separate pairs of elements, in every relative numbering
    for dim in (1, 2, 3):
        ms = []
        if dim < 3 or THOROUGH:
            m = meshgen.pairs(dim, rng)
            ms = [m] if dim < 3 else []
            if dim == 3:
                ms = [meshgen.pairs(3, rng, 620) for _ in range(12)]
        else:
            ms = [meshgen.pairs(3, rng, 160) for _ in range(4)] + [meshgen.pairs(3, rng, 40, only=o) for o in ([8], [6], [4], [5])]
        for m in ms:
            b.add(m, cmds)
    # meshes, undistorted or with curved (bilinear) faces, some of them periodic
    for i in range(160 if THOROUGH else 40):
        dim = rng.choice([1, 2, 2, 3, 3])
        m = random_mesh(rng, dim, 1)
        if rng.random() < .7:
            meshgen.distort(m, rng)
        b.add(m, cmds)
    rs = run_batches(c, e, [b], "geometry failed")
    if rs is None:
        return
    cases, turns = [], 0
    quarter = {(1, 3, 0, 2), (2, 0, 3, 1)}
    for _, case, evs in rs:
        m = case["mesh"]
        r = {x["c"]: x["r"][0] for x in evs}
        el = [{"id": x["id"], "co": x["co"], "nd": x["nd"]} for x in r["dump"]["el"]]
        shapes = {x["nv"]: x for x in r["refgeo"]["sh"]}
        byid = {x["id"]: x for x in el}

        def turn(f):
            if not f["r"] or f["nv"] != 4:
                return False
            a, g = byid[f["l"][0]], byid[f["r"][0]]
            try:
                fa = shapes[len(a["nd"])]["fa"][f["l"][1]]["v"]
                fb = shapes[len(g["nd"])]["fa"][f["r"][1]]["v"]
                nb = [g["nd"][x] for x in fb]
                return tuple(nb.index(a["nd"][x]) for x in fa) in quarter
            except (ValueError, IndexError):
                return False
        faces = r["facepts"]["fp"]
        for f in faces:
            f["per"] = any(m["per"])
            for t in f["p"]:
                t.setdefault("L2", [])
                t.setdefault("R2", [])
            turns += turn(f)
        head = [{"c": "ref", "s": r["refgeo"]["sh"]}, {"c": "el", "s": el}]
        chunk = lambda c_, s: [{"c": c_, "s": s[i:i + 40]} for i in range(0, len(s), 40)]
        cases.append({"dim": m["dim"], "ev": head + chunk("ep", r["elpts"]["ep"]) + chunk("fp", faces)})
    c.sample({"faces": sum(len(v["s"]) for x in cases for v in x["ev"] if v["c"] == "fp"), "quarter turns": turns})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "fp" and ev["s"] and ev["s"][0]["nv"] > 1:
                    ev["s"][0]["p"][-1]["x"][0] += 1
                    return [x]
    judge(c, "FaceGeometryTrace", cases, corrupt=corrupt, label="points, normals and Jacobians")


main("C20", body)
