"""C24: the Preprocessor reads the mesh that is in the file (gmsh, Centaur, hpGEM)."""
import sys, os, json, struct, copy, glob, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import meshgen

MC = "CONSTANTS MaxSecs = %d\n Kinds = {}\nSPECIFICATION Spec\nINVARIANT Independent\nINVARIANT Zoned\n"
GEN = "CONSTANTS MaxSecs = %d\n Kinds = {\"names\",\"nodes\",\"elements\",\"data\",\"periodic\",\"skip\"}\nSPECIFICATION GSpec\nCONSTRAINT Emit\n"
# position in the listing of gmsh and of Centaur (CGNS) -> position in hpGEM's listing
RING = {(1, 2): [0, 1], (2, 3): [0, 1, 2], (2, 4): [0, 1, 3, 2], (3, 4): [0, 1, 2, 3], (3, 5): [1, 2, 4, 3, 0], (3, 6): [0, 1, 2, 3, 4, 5], (3, 8): [0, 1, 3, 2, 4, 5, 7, 6]}
MIDS = {"gmsh": {(1, 2): [(0, 1)], (2, 3): [(0, 1), (1, 2), (2, 0)], (3, 4): [(0, 1), (1, 2), (0, 2), (0, 3), (2, 3), (1, 3)]},
        "cgns": {(3, 4): [(0, 1), (1, 2), (0, 2), (0, 3), (1, 3), (2, 3)]}}
GTYPE = {(1, 2): 1, (2, 3): 2, (2, 4): 3, (3, 4): 4, (3, 8): 5, (3, 6): 6, (3, 5): 7, (1, 3): 8, (2, 6): 9, (3, 10): 11}
NAMES = ["air", "silicon core", "Main", "a-b_c", "3", "zone 4", "x.y"]


def points_of(mesh):
    """elements as lists of coordinates, hpGEM order"""
    return [[tuple(mesh["nodes"][n][k]) for n, k in e] for e in mesh["elems"]]


def random_elements(rng, dims=(1, 2, 2, 3, 3), second=None, small=False, big=False):
    dim = rng.choice(dims)
    per = [int(rng.random() < .4) for _ in range(dim)]
    top = {1: 6, 2: 3, 3: 2}[dim] + (1 if big and dim > 1 else 0)
    n = [rng.choice([3, 3, 4] if dim < 3 else [3]) if p else rng.randint(1, top) for p in per]
    if dim == 3 and n[0] * n[1] * n[2] > 9:
        for d in range(3):
            n[d] = 1 if not per[d] else n[d]
        if n[0] * n[1] * n[2] > 9:
            per = [1, 0, 0]; n = [3, 1, 1]
    second = (rng.random() < .25) if second is None else second
    kinds = "simplex" if second else rng.choice(["mixed", "cube", "simplex"] + (["prism", "pyr"] if dim == 3 else []))
    if dim == 3 and kinds in ("pyr", "simplex") and n[0] * n[1] * n[2] > 6:
        kinds = "mixed" if not second else kinds
    if dim == 3 and second:
        n = [3 if p and not any(per[:d]) else 1 for d, p in enumerate(per)]
        per = [int(k == 3) for k in n]
    mesh = meshgen.grid(dim, n, per, rng, kinds if dim > 1 else "cube")
    sh = [rng.randint(-6, 6) for _ in range(dim)]
    els = [[tuple(v + s for v, s in zip(x, sh)) for x in e] for e in points_of(mesh)]
    pairs = []
    L = [2 * k for k in n]
    return dim, els, sh, L, per, second


def listed(fmt, dim, e, second, mirror):
    """vertices in the order of the format, with nodes halfway for the second order"""
    key = (dim, len(e))
    v = [e[i] for i in RING[key]]
    if mirror:
        s = mirror.choice(meshgen.symmetries(*key))
        h = [e[i] for i in s]
        v = [h[i] for i in RING[key]]
    if second:
        v = v + [tuple((a + b) // 2 for a, b in zip(v[i], v[j])) for i, j in MIDS[fmt][key]]
    return v


def periods(pts, sh, L, per):
    """for every periodic direction the pairs (far side, near side)"""
    out = []
    for d, p in enumerate(per):
        if p:
            far = [x for x in sorted(pts) if x[d] - sh[d] == L[d]]
            out.append([(x, tuple(v - (L[d] if k == d else 0) for k, v in enumerate(x))) for x in far])
    return out


def dec(rng, v):
    f = v / 8.0
    return rng.choice([repr(f), "%.17g" % f, "%.6e" % f, "%g" % f])


def gmsh_file(rng, hist, path):
    dim, els, sh, L, per, second = random_elements(rng)
    if "periodic" not in hist and any(per):
        pass
    body = [listed("gmsh", dim, e, second, rng if rng.random() < .7 else None) for e in els]
    pts = sorted({x for e in body for x in e})
    extra = [tuple(100 + 2 * k + d for d in range(dim)) for k in range(rng.choice([0, 0, 1, 2]))]     # nodes of no element
    allp = pts + extra
    order = allp[:]
    rng.shuffle(order)
    how = rng.choice(["dense", "dense", "shuffled", "sparse"])
    tags = list(range(1, len(allp) + 1))
    if how == "shuffled":
        rng.shuffle(tags)
    if how == "sparse":
        tags = rng.sample(range(1, 3 * len(allp) + 5), len(allp))
    tag = dict(zip(order, tags))
    dimz = dim
    # elements of lower dimensions in between
    low = []
    for _ in range(rng.randint(0, 4)):
        low.append((15, [rng.choice(pts)]))
    if dim > 1:
        for e in rng.sample(els, min(len(els), rng.randint(0, 4))):
            fs = rng.choice(meshgen.FACES[(dim, len(e))])
            f = listed("gmsh", dim - 1, [e[i] for i in fs], False, None)
            low.append((GTYPE[(dim - 1, len(f))], f))
    raw = [(GTYPE[(dim, len(v))], v, True) for v in body]
    if rng.random() < .6:
        raw = [(t, v, False) for t, v in low] + raw
    else:
        for t, v in low:
            raw.insert(rng.randint(0, len(raw)), (t, v, False))
    ptag = [rng.randint(1, 5) for _ in range(4)]
    elements = []
    for t, v, topd in raw:
        nt = rng.choice([0, 2, 2, 2, 3, 4]) if rng.random() < .5 else 2
        g = [rng.choice(ptag)] + [rng.randint(1, 9)] + [1] + [rng.choice([3, -3])]
        elements.append({"t": t, "g": g[:nt], "v": [tag[x] for x in v]})
    pad = lambda x: list(x) + [0] * (3 - dim)
    secs = []
    lines = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat"]
    tiny = rng.random() < .3
    for k in hist:
        if rng.random() < .1:
            lines.append("")
        if k == "names":
            ds = [dim] if rng.random() < .5 else list(range(0, dim + 1))
            if rng.random() < .15 and dim > 1:
                ds = list(range(0, dim))
            nm = [(d, t, rng.choice(NAMES)) for d in ds for t in sorted(set(ptag)) if rng.random() < .9]
            rng.shuffle(nm)
            secs.append({"k": "names", "v": [list(x) for x in nm]})
            lines += ["$PhysicalNames", str(len(nm))] + ['%d %d "%s"' % x for x in nm] + ["$EndPhysicalNames"]
        elif k == "nodes":
            nodes = [[tag[x]] + pad(x) for x in order]
            secs.append({"k": "nodes", "v": nodes})
            lines += ["$Nodes", str(len(nodes))]
            for nd in nodes:
                w = [dec(rng, v) for v in nd[1:]]
                for q in range(dim, 3):
                    if tiny:
                        w[q] = rng.choice(["0", "1e-14", "-3e-13", "0.0"])
                lines.append("%d %s" % (nd[0], " ".join(w)))
            lines.append("$EndNodes")
        elif k == "elements":
            secs.append({"k": "elements", "v": elements})
            lines += ["$Elements", str(len(elements))]
            for i, e in enumerate(elements):
                lines.append(" ".join(map(str, [i + 1, e["t"], len(e["g"])] + e["g"] + e["v"])))
            lines.append("$EndElements")
        elif k == "data":
            v = [[i + 1, rng.randint(1, 6)] for i in range(len(elements)) if rng.random() < .8]
            secs.append({"k": "data", "v": v})
            ni = rng.choice([3, 4])
            lines += ["$ElementData"] + rng.choice([["0"], ["1", '"zones"'], ["1", '"zones of it"'], ["2", '"a b"', '"c"']]) + rng.choice([["0"], ["1", "0.0"]]) + \
                     [str(ni), "0", "1", str(len(v))] + (["0"] if ni == 4 else [])
            lines += ["%d %s" % (a, rng.choice(["%d", "%d.0", "%de0"]) % b) for a, b in v] + ["$EndElementData"]
        elif k == "periodic":
            pp = [[[tag[a], tag[b]] for a, b in q] for q in periods(pts, sh, L, per)]
            secs.append({"k": "periodic", "v": pp})
            lines += ["$Periodic", str(len(pp))]
            for q in pp:
                lines += ["%d %d %d" % (dim - 1, 2, 1), str(len(q))] + ["%d %d" % tuple(x) for x in q]
            lines.append("$EndPeriodic")
        else:
            secs.append({"k": "skip"})
            lines += rng.choice([["$Comments", "made by hand", "$EndComments"], ["$NodeData", "1", '"Nodes"', "0", "3", "0", "1", "0", "$EndNodeData"],
                                 ["$PhysicalStuff", "3", "$Nodes", "$EndPhysicalStuff"]])
    # the coordinates decide the dimension where names do not: some point must be off the axes
    ext = max([0] + [max([q + 1 for q in range(dim) if x[q] != 0] or [0]) for x in order])
    nd = max([ext] + [x[0] for s in secs if s["k"] == "names" for x in s["v"]])
    if nd != dim:
        return None
    nl = rng.choice(["\n", "\n", "\r\n"])
    with open(path, "w", newline="") as f:
        f.write(nl.join(lines) + (nl if rng.random() < .8 else ""))
    return {"k": "gmsh", "secs": secs}


def rec(b):
    return struct.pack("<I", len(b)) + b + struct.pack("<I", len(b))


def u32(*v):
    return struct.pack("<%dI" % len(v), *v)


def name80(s):
    return s.encode().ljust(80)


def centaur_file(rng, path):
    dim, els, sh, L, per, second = random_elements(rng, dims=(2, 3, 3))
    if dim == 2:
        second = False
    kind = -1 if dim == 2 else rng.choice([4, 5])
    if dim == 2:
        version = rng.choice([4.5, 4.9, 5.0, 5.5])
    elif second:
        version = rng.choice([7.0, 7.2, 7.5])
    else:
        version = rng.choice([4.5, 5.0, 6.0, 6.5])
    shapes = [3, 4] if dim == 2 else [8, 6, 5, 4]
    body = [listed("cgns", dim, e, False, rng if rng.random() < .7 else None) for e in els]
    groups = [[v for v in body if len(v) == s] for s in shapes]
    corner = sorted({x for e in body for x in e})
    full = [[v + [tuple((a + b) // 2 for a, b in zip(v[i], v[j])) for i, j in MIDS["cgns"][(3, 4)]] for v in g] if second and len(shapes) == 4 and s == 4 else g
            for s, g in zip(shapes, groups)]
    pts = sorted({x for g in full for v in g for x in v})
    rng.shuffle(pts)
    num = {x: i + 1 for i, x in enumerate(pts)}
    line = lambda n: rng.randint(1, max(1, n))

    def group(items, pack, comps, multiline=True):
        n = len(items)
        if kind == 5 and multiline:
            k = line(n)
            out = rec(u32(n, k if n else 0))
        else:
            k = max(n, 1)
            out = rec(u32(n))
        out += b"".join(rec(b"".join(pack(x) for x in items[i:i + k])) for i in range(0, n, k)) if n else rec(b"")
        return out
    data = rec(struct.pack("<fi", version, kind) + b"Unstructured hybrid grid format".ljust(80))
    data += group(pts, lambda x: struct.pack("<%dd" % dim, *[v / 8.0 for v in x]), dim)
    for g in groups:
        data += group(g, lambda v: u32(*[num[x] for x in v]), 0)
    if dim == 2:
        data += group([(num[x], 1) for x in corner[:3]], lambda v: u32(*v), 2)

    def group2(a, b):          # two properties
        n = len(a)
        if kind == 5:
            k = line(n)
            out = rec(u32(n, k))
        else:
            k = n
            out = rec(u32(n))
        for q in (a, b):
            out += b"".join(rec(b"".join(u32(*x) for x in q[i:i + k])) for i in range(0, n, k))
        return out
    nb = rng.randint(1, 5)
    data += group2([tuple(rng.choice(list(num.values())) for _ in range(2 if dim == 2 else 8)) for _ in range(nb)], [(1,)] * nb)
    data += group([(1,)] * rng.randint(1, 3), lambda v: u32(*v), 1, False)
    ng = rng.randint(1, 2)
    data += rec(u32(ng)) + rec(u32(*range(1, ng + 1))) + rec(b"".join(name80("wall %d" % i) for i in range(ng)))
    pairs = []
    pl = periods(corner if not second else pts, sh, L, per)
    data += rec(u32(len(pl)))
    for q in pl:
        m = struct.pack("<I", 0) + struct.pack("<%dd" % ((dim + 1) ** 2), *[0.0] * (dim + 1) ** 2)
        data += rec(m) + rec(m)
        w = [[num[a], num[b]] for a, b in q]
        if rng.random() < .3:
            w.insert(rng.randint(0, len(w)), [rng.choice([x for x in num.values() if x not in [a for a, _ in w]] or [w[0][0]]), 0])
        pairs.append(w)
        data += rec(u32(len(w))) + rec(b"".join(u32(*x) for x in w))
    if dim == 3:
        data += group([(1,)] * rng.randint(0, 2), lambda v: u32(*v), 1)
    zones = []
    if not (dim == 2 and version < 4.99 and rng.random() < .6):
        nz = rng.randint(1, 3)
        cuts = [sorted(rng.randint(1, len(g) + 1) for _ in range(nz - 1)) for g in groups]
        for z in range(nz):
            s = [1 if z == 0 else ct[z - 1] for ct in cuts]
            zones.append({"n": rng.choice(NAMES) + str(z), "s": s})
        data += rec(u32(nz))
        if dim == 3:
            data += rec(b"".join(u32(*z["s"], 1) + name80(z["n"]) for z in zones))
            if version > 4.99:
                data += rec(b"".join(name80("family") for _ in zones))
        else:
            data += rec(b"".join(u32(*z["s"]) for z in zones)) + rec(b"".join(name80(z["n"]) for z in zones))
    ex = []
    if dim == 3:
        if 6.49 < version < 6.99 or version > 7.49:
            for i in range(10):
                data += rec(b"x" * rng.randint(0, 9))
        if version > 6.99:
            data += rec(u32(2))
            for s, g, fl in zip(shapes, groups, full):
                e = [v[len(w):] for v, w in zip(fl, g)]
                ex.append([[num[x] for x in v] for v in e])
                ne = 6 if s == 4 else 0
                if kind == 5:
                    k = line(len(e))
                    data += rec(u32(ne, k))
                else:
                    k = max(1, len(e))
                    data += rec(u32(ne))
                data += b"".join(rec(b"".join(u32(*[num[x] for x in v]) for v in e[i:i + k])) for i in range(0, len(e), k)) if e else rec(b"")
    with open(path, "wb") as f:
        f.write(data)
    return {"k": "centaur", "f": {"dim": dim, "points": [list(x) for x in pts], "groups": [[[num[x] for x in v] for v in g] for g in groups], "extra": ex,
                                  "zones": zones, "per": pairs}}


def hpgem_file(rng, path):
    dim = rng.choice([1, 2, 3])
    per = [int(rng.random() < .4) for _ in range(dim)]
    n = [rng.choice([3, 4] if dim < 3 else [3]) if p else rng.randint(1, 3 if dim < 3 else 2) for p in per]
    mesh = meshgen.grid(dim, n, per, rng, rng.choice(["mixed", "cube", "simplex"]) if dim > 1 else "cube")
    np_ = rng.randint(1, 4)
    meshgen.partition(mesh, np_, rng, "random")
    meshgen.write(mesh, path, 1)
    return {"k": "hpgem", "f": {"dim": dim, "nodes": [[list(x) for x in cs] for cs in mesh["nodes"]], "el": [[[a + 1, b + 1] for a, b in e] for e in mesh["elems"]],
                                "np": mesh["nparts"], "ow": mesh["owner"]}}


def body(c):
    rng = c.rng
    lib = os.path.join(REPO, "applications/Preprocessor/lib")
    exe = build("readers", ["readers.cpp"] + sorted(glob.glob(lib + "/**/*.cpp", recursive=True)), "plain", extra_inc=[lib])
    c.model(tlc("MeshFilesMC", MC % (6 if THOROUGH else 5)), "msh files: order of sections, numbering of nodes, shapes")
    hs, r = gen_histories("MeshFilesMC", GEN % (6 if THOROUGH else 5))
    c.model(r, "sequences of sections")
    d = scratch("c24")
    cases, paths = [], []
    for rep in range(4 if THOROUGH else 1):
        for h in hs:
            for _ in range(5):
                p = os.path.join(d, "f%d.msh" % len(cases))
                k = gmsh_file(rng, h, p)
                if k:
                    cases.append(k); paths.append("gmsh " + p)
                    break
    ng = len(cases)
    for i in range(500 if THOROUGH else 150):
        p = os.path.join(d, "f%d.hyb" % len(cases))
        cases.append(centaur_file(rng, p)); paths.append("centaur " + p)
    for i in range(200 if THOROUGH else 60):
        p = os.path.join(d, "f%d.hpgem" % len(cases))
        cases.append(hpgem_file(rng, p)); paths.append("hpgem " + p)
    done = 0
    todo = list(range(len(cases)))
    while todo:
        r = run([exe], stdin="".join(paths[i] + "\n" for i in todo), timeout=120)
        lines = r.out.splitlines()
        for i, l in zip(todo, lines):
            cases[i]["r"] = json.loads(l)
        if len(lines) >= len(todo):
            break
        cases[todo[len(lines)]]["r"] = {"error": "the process ended with %s: %s" % (r.rc, r.err[-500:])}
        break
    good = []
    for k, p in zip(cases, paths):
        if "error" in k["r"]:
            raw = open(p.split()[1], "rb").read()
            c.violation("a valid %s file is not read: %s" % (k["k"], k["r"]["error"][:300]), {"case": k, "file": raw.decode("latin1")[:6000]})
            return
        good.append(k)
    c.sample({"sections": [s["k"] for s in good[0]["secs"]], "elements": len(good[0]["r"]["el"])})

    def corrupt(cs):
        for k in cs:
            if k["k"] == "centaur" and len(k["r"]["el"]) > 1 and len(k["f"]["zones"]) > 1:
                k["r"]["el"][0]["z"] = "other"
                return [k]
    judge(c, "MeshFilesTrace", good, corrupt=corrupt, label="mesh files read", timeout=700)


main("C24", body)
