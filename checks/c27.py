"""C27: the functions of an element span the polynomials of their order; gradients, curls and transformations are exact."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *
import meshgen

SHAPES = {(1, 2): "line", (2, 3): "triangle", (2, 4): "square", (3, 4): "tetrahedron", (3, 5): "pyramid", (3, 6): "prism", (3, 8): "cube"}


def orders(dim, nv, basis):
    """Orders for which the library has the functions (and a quadrature rule)."""
    if basis in ("nedelec", "ac"):
        return range(1, 6)
    if basis == "mono":
        return range(0, 4 if nv in (5, 6) and dim == 3 else 6)
    top = {5: 1, 6: 2 if basis == "dg" else 1}.get(nv if dim == 3 else 0, 5)
    return range(1 if basis == "conf" else 0, top + 1)


def monomials(dim, nv, basis, p):
    t = list(itertools.product(range(p + 1), repeat=dim))
    if basis in ("nedelec", "ac"):
        q = p - (basis == "nedelec")
        return [m + (k,) for m in t if sum(m) <= q for k in range(dim)]
    if basis == "mono" or nv == dim + 1 or (dim == 3 and nv == 5):
        return [m for m in t if sum(m) <= p]
    if dim == 3 and nv == 6:
        return [m for m in t if m[0] + m[1] <= p]
    return t


def bases(dim, nv):
    return ["mono", "dg", "conf"] + (["nedelec"] if nv == dim + 1 and dim > 1 else []) + (["ac"] if (dim, nv) == (3, 4) else [])


def body(c):
    e = build("fieldfun", ["fieldfun.cpp"], "plain")
    c.model(tlc("FieldFunctions", "SPECIFICATION Spec\nINVARIANT Theorems\nCHECK_DEADLOCK FALSE\n"), "difference formula, dimensions of spaces, curl along two directions")
    rng = c.rng
    d = scratch("c27")
    jobs = []      # (line, kind, dim, basis, order, monomials)
    kinds = {(1, 2): "mixed", (2, 3): "simplex", (2, 4): "cube", (3, 4): "simplex", (3, 5): "pyr", (3, 6): "prism", (3, 8): "cube"}
    n = 0
    for (dim, nv), kind in kinds.items():
        for basis in bases(dim, nv):
            for o in orders(dim, nv, basis):
                big = nv == 8 and o > 3
                # derivatives: on random meshes, distorted
                for rep in range(1 if big else 3 if not THOROUGH else 12):
                    m = meshgen.grid(dim, [rng.randint(1, 2) for _ in range(dim)] if dim < 3 and dim > 1 else [2] if dim == 1 else [1, 1, 1], [False] * dim, rng, kinds=kind)
                    if rng.random() < .7 and nv not in (5,):
                        m = meshgen.distort(m, rng) or m
                    meshgen.partition(m, 1, rng, "blocks")
                    f = os.path.join(d, "m%d.hpgem" % n)
                    n += 1
                    meshgen.write(m, f)
                    jobs.append(("%d %s %s %d %d d %d" % (dim, f, basis, o, rng.randrange(1 << 30), 1 if big else 2), "d", dim, basis, o, None))
                if big and not THOROUGH:
                    continue
                ms = monomials(dim, nv, basis, o)
                step = (4 if o <= 3 else 2) if nv == 8 else 1 if o >= 4 and nv == dim + 1 else 2
                if o == 5 and dim == 3 and not THOROUGH:
                    continue
                if big and o == 5:
                    continue        # 216 functions at 729 points: too much for TLC
                jobs.append(("%d %s %s %d 1 s %d %d %s" % (dim, f, basis, o, len(ms), step, " ".join(str(x) for q in ms for x in q)), "s", dim, basis, o, ms))
    ctl, out = os.path.join(d, "ctl"), os.path.join(d, "out")
    open(ctl, "w").write("\n".join(j[0] for j in jobs) + "\n")
    r = run([e, ctl, out], 300)
    lines = open(out).read().splitlines() if os.path.exists(out) else []
    cases = []
    for i, j in enumerate(jobs):
        if i >= len(lines) or (i == len(lines) - 1 and r.rc):
            c.violation("evaluating functions crashed: " + (r.out + r.err)[-300:], {"case": j[0]})
            return
        x = json.loads(lines[i])
        if "err" in x:
            c.violation("evaluating functions failed: " + x["err"][:300], {"case": j[0]})
            return
        ev = []
        for q in x["el"]:
            q.update({"k": j[1], "dim": j[2], "b": j[3], "o": j[4]})
            if j[1] == "s":
                q["m"] = [list(m) for m in j[5]]
                top = max(sum(abs(a * b) for a, b in zip(co, F)) for co in q["c"] for F in q["F"])
                worst = top
            else:
                worst = max([abs(v) * 1750 for F in q["f"] for s in F["s"] for cc in s for v in cc] + [abs(v) * 12288 for F in q["f"] for v in F.get("g", [])]
                            + [abs(v) * 4096 for F in q["f"] for v in F.get("h", [])]
                            + [abs(v) * 4000 for F in q["f"] for v in F.get("c", []) + F.get("v", [])])
            if worst > 2e9:
                c.violation("%s functions of order %d on a %s have values out of range" % (j[3], j[4], SHAPES[(j[2], q["nv"])]), {"case": j[0], "worst": worst})
                return
            ev.append(q)
        cases.append({"ev": ev})
    c.sample({"cases": len(cases), "line": jobs[0][0]})

    def corrupt(cs):
        for x in cs:
            for q in x["ev"]:
                if q["k"] == "d" and q["b"] == "dg" and q["o"] == 2:
                    q["f"][-1]["g"][0] += 400
                    return [x]
    judge(c, "FieldTrace", cases, corrupt=corrupt, label="values, derivatives and spans of all bases", timeout=800)


main("C27", body)
