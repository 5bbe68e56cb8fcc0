"""C35: band structures of homogeneous media and paths in k-space."""
import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from maxwell import *


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def basis(rng, dim):
    """Reduced lattices: no vector can be made shorter by another one."""
    while True:
        b = [[rng.choice([-2, -1, 0, 0, 0, 1, 2]) if i != d else rng.randint(1, 4) for i in range(dim)] for d in range(dim)]
        if rng.random() < .3:
            b = [[x if i == d else 0 for i, x in enumerate(v)] for d, v in enumerate(b)]
        det = b[0][0] * b[1][1] - b[0][1] * b[1][0] if dim == 2 else meshgen._det(b)
        short = [dot(v, v) for v in b]
        sums = dim == 2 or all(dot(w, w) >= max(short) for s in (1, -1) for t in (1, -1) for w in [[x + s * y + t * z for x, y, z in zip(*b)]])
        if det and sums and all(2 * abs(dot(b[i], b[j])) <= min(short[i], short[j]) for i in range(dim) for j in range(i)):
            return b, abs(det)


def box(b, det, dim, reach):
    """coordinates of lattice points within the distance"""
    cof = [[b[1][1], -b[1][0]], [-b[0][1], b[0][0]]] if dim == 2 else \
        [[b[(i + 1) % 3][(j + 1) % 3] * b[(i + 2) % 3][(j + 2) % 3] - b[(i + 1) % 3][(j + 2) % 3] * b[(i + 2) % 3][(j + 1) % 3] for j in range(3)] for i in range(3)]
    return max(int(reach * math.sqrt(dot(r, r)) / det + 1e-9) for r in cof) + 1


def body(c):
    e = build("bands", ["bands.cpp"] + [os.path.join(A, "Utils", x + ".cpp") for x in ("HomogeneousBandStructure", "BandstructureUtils", "KSpacePath")], "real", extra_inc=[A])
    c.model(tlc("BandsMC", "CONSTANTS Top = %d Box = 6 K = %d\nSPECIFICATION Spec\nINVARIANTS Periodic Ends\n" % ((60, 6) if THOROUGH else (40, 4))), "lattices in two dimensions, all pairs of points")
    rng = c.rng
    evs, lines = [], []
    s = lambda *v: " ".join(str(x) for q in v for x in (q if isinstance(q, list) else [q]))
    for i in range(2400 if THOROUGH else 400):
        dim = rng.choice([2, 2, 3])
        pt = lambda m: [rng.randint(-m, m) for _ in range(dim)]
        what = rng.choice(["path", "spectrum", "spectrum", "lines", "lines"])
        if what == "path":
            n, p = rng.randint(1, 6), [pt(20) for _ in range(rng.randint(1, 5))]
            if rng.random() < .3 and len(p) > 1:
                p.append([2 * x - y for x, y in zip(p[-1], p[-2])])
            evs.append({"c": "path", "s": n, "p": p})
            lines.append(s(dim, "path", n, len(p), *p))
            continue
        b, det = basis(rng, dim)
        k = pt(rng.choice([2, 8, 20]) if dim == 2 else rng.choice([2, 6])) if rng.random() < .9 else [0] * dim
        l = [x + y for x, y in zip(k, pt(4 if dim == 2 else 3))]
        top = rng.randint(0, 16 * (8 if dim == 2 else 3) * max(1, round(det ** (2 / dim))))
        reach = (math.sqrt(top + 1) + max(math.sqrt(dot(k, k)), math.sqrt(dot(l, l)))) / 4
        bx = box(b, det, dim, reach)
        if (2 * bx + 1) ** dim > 20000 or what == "lines" and k == l:
            continue
        eps = rng.randint(1, 12)
        ev = {"c": what, "B": b, "box": bx, "at": k, "b": top}
        if what == "lines":
            ev["to"] = l
        evs.append(ev)
        lines.append(s(dim, what, eps, repr(top + 37 / 101), *b, k, *([l] if what == "lines" else [])))
    for dim in (2, 3):
        for n in (1, 2, 7):
            for back in (False, True):
                evs.append({"c": "cube", "dim": dim, "s": n, "back": back})
                lines.append("%d cube %d %d" % (dim, n, back))
    f = os.path.join(scratch("c35"), "in")
    open(f, "w").write("\n".join(lines) + "\n")
    r = run([e, f], timeout=600)
    out = [json.loads(x) for x in r.out.splitlines() if x.startswith("{")]
    if len(out) < len(lines):
        c.violation("band structure or path: the program stopped at: " + lines[len(out)], {"line": lines[len(out)], "err": r.err[-500:]})
        return
    for ev, o, x in zip(evs, out, lines):
        if "err" in o:
            c.violation("band structure or path: " + o["err"], {"line": x})
            return
        ev.update(o)
    c.sample({"paths": sum(x["c"] == "path" for x in evs), "spectra": sum(x["c"] == "spectrum" for x in evs), "modes": sum(len(x.get("lin", [])) for x in evs),
              "segments": sum(x["c"] == "lines" for x in evs), "lines": sum(len(x.get("lines", [])) for x in evs)})

    def corrupt(cs):
        for x in cs:
            for ev in x["ev"]:
                if ev["c"] == "spectrum" and ev["map"]:
                    ev["map"][0][1] += 1
                    return [x]
    judge(c, "BandsTrace", [{"ev": [x]} for x in evs], corrupt=corrupt, label="bands")


main("C35", body)
