"""C19: visualisation files describe the mesh and data that were written."""
import sys, os, struct, base64
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *

CFG = "CONSTANTS Times={%s} Levels={%s} Names={1,2,3} Kinds={%s} MaxCalls=%d Show=%s\nSPECIFICATION Spec\nINVARIANTS EveryCallOnce EveryTimeOnce LevelsKept Replays Emit\nCHECK_DEADLOCK FALSE\n"
FULL = 1.0 + 2.0 ** -30
TIMES = [0.0, 0.5, -1.25, 1000.001, 1000.0011, 3.0e-7, 3.0000001e-7, 2.0, 1e20, 0.1, 0.30000000000000004, 0.3]
BAD = 99999999


class Format(Exception):
    pass


def decode(text, typ):
    s = "".join((text or "").split())
    head = base64.b64decode(s[:8], validate=True)
    n = struct.unpack("<I", head)[0]
    raw = base64.b64decode(s[8:], validate=True)
    if len(raw) != n:
        raise Format("data array with %d bytes, header says %d" % (len(raw), n))
    code = {"Float64": "d", "UInt32": "I", "UInt8": "B"}[typ]
    return list(struct.unpack("<%d%s" % (n // struct.calcsize(code), code), raw))


def num(v):
    """The integer v that was supplied as v*FULL (0 and 1 may be padding)."""
    if v in (0.0, 1.0):
        return int(v)
    k = round(v / FULL)
    return k if k * FULL == v else BAD


def pos(v, scale):
    k = round(v * scale)
    return k if abs(k - v * scale) < 1e-9 * max(1, abs(k)) else BAD


def fields(node, tag):
    out = []
    for a in node.findall(tag):
        if a.get("type") != "Float64":
            raise Format("field type")
        out.append((int(a.get("Name")[1:]) if a.get("Name", "")[1:].isdigit() else -1, int(a.get("NumberOfComponents", "1")), a))
    return out


def piece(path, order):
    r = ET.parse(path).getroot()
    if r.get("type") != "UnstructuredGrid" or r.get("byte_order") != "LittleEndian":
        raise Format("header of " + path)
    ps = r.findall("./UnstructuredGrid/Piece")
    if len(ps) != 1:
        raise Format("pieces in " + path)
    q = ps[0]
    pa = q.findall("./Points/DataArray")
    if len(pa) != 1:
        raise Format("points")
    x = decode(pa[0].text, pa[0].get("type"))
    sc = 8 * max(order, 1)
    cells = {a.get("Name"): decode(a.text, a.get("type")) for a in q.findall("./Cells/DataArray")}
    return {"np": int(q.get("NumberOfPoints")), "nc": int(q.get("NumberOfCells")), "pc": int(pa[0].get("NumberOfComponents")),
            "pts": [[pos(v, sc) for v in x[i:i + 3]] for i in range(0, len(x), 3)],
            "con": cells["connectivity"], "off": cells["offsets"], "ty": cells["types"],
            "fields": [{"n": n, "nc": nc, "v": [num(v) for v in decode(a.text, "Float64")]} for n, nc, a in fields(q.find("PointData"), "DataArray")]}


def frame(d, name, order):
    r = ET.parse(os.path.join(d, name + ".pvtu")).getroot()
    g = r.find("PUnstructuredGrid")
    if r.get("type") != "PUnstructuredGrid" or g is None:
        raise Format("header of " + name)
    src = [a.get("Source") for a in g.findall("Piece")]
    return {"name": name, "src": src, "pc": int(g.find("PPoints/PDataArray").get("NumberOfComponents")),
            "fields": [{"n": n, "nc": nc} for n, nc, _ in fields(g.find("PPointData"), "PDataArray")],
            "pieces": [piece(os.path.join(d, s), order) for s in src]}


def collection(d, name, order):
    r = ET.parse(os.path.join(d, name + ".pvd")).getroot()
    idx, fr = [], []
    for a in r.findall("./Collection/DataSet"):
        t = float(a.get("timestep"))
        idx.append({"t": TIMES.index(t) if t in TIMES else -1, "f": a.get("file")})
        fr.append(frame(d, a.get("file").rsplit(".", 1)[0], order))
    return idx, fr


def tecplot(path, dim):
    L = open(path).read().split("\n")
    zs, i = [], 0
    want = 'VARIABLES = ' + ", ".join('"x%d"' % k for k in range(dim)) + ', "a", "b"'
    if L[0] != 'TITLE = "title"' or L[1].split() != want.split():
        raise Format("header of tecplot file: " + L[1])
    i = 2
    while i < len(L) and L[i].strip():
        h = L[i]
        m = re.match(r'ZONE T = "(.*)", STRANDID = 1, SOLUTIONTIME = (\S+), ZONETYPE = (\w+), DATAPACKING = POINT, N = (\d+)\s*, E = (\d+)\s*(, D = \((.*)\))?\s*$', h)
        if not m:
            raise Format("zone header: " + h)
        i += 1
        N, E, same = int(m.group(4)), int(m.group(5)), bool(m.group(6))
        if m.group(3) != ["", "FELINESEG", "FEQUADRILATERAL", "FEBRICK"][dim]:
            raise Format("zone type " + m.group(3))
        if same and m.group(7) != "".join("%d," % (k + 1) for k in range(dim)) + "FECONNECT":
            raise Format("shared variables " + m.group(7))
        rows = []
        while i < len(L) and len(rows) < N and len(L[i].split()) == (2 if same else dim + 2):
            w = L[i].split()
            rows.append(([] if same else [pos(float(v), 8) for v in w[:dim]]) + [int(v) for v in w[-2:]])
            i += 1
        con = []
        while i < len(L) and L[i].strip() and not L[i].startswith("ZONE"):
            con.append([int(v) for v in L[i].split()])
            i += 1
        t = float(m.group(2))
        zs.append({"title": m.group(1), "N": N, "E": E, "same": same, "t": int(t) if t == int(t) else BAD, "rows": rows, "con": con})
    return zs


def plan(rng, i, hist, kinds):
    """Commands and abstract runs of one case."""
    cmds, runs = ["el"], []
    big = not kinds.isdisjoint({"mixed", "prism", "pyr"})
    order = rng.choice([0, 1, 1] if big else [0, 1, 2, 3, 4, 5] if rng.random() < .3 else [1, 2, 3])
    if hist is not None:
        sub = "" if rng.random() < .7 else "sub/"
        name = "t%d" % i
        cmds.append("tvtk %s %d" % (sub + name, order))
        for x in hist:
            cmds.append("tf %s f%d %d %r %d" % (x["k"], x["n"], x["n"], TIMES[x["t"]], x["l"]))
        cmds.append("close")
        runs.append({"c": "time", "order": order, "calls": hist, "name": name, "sub": sub})
    if rng.random() < .7:
        o2 = order if big else rng.choice([0, 1, 2, 3, 4])
        fs = [{"k": rng.choice("svt"), "n": n + 1} for n in range(rng.randint(0, 5))]
        l = rng.randint(0, 3)
        name = "s%d" % i
        cmds.append("vtk %s %d %d" % (name, l, o2))
        k = 0
        while k < len(fs):
            if rng.random() < .5:
                cmds.append("f %s f%d %d" % (fs[k]["k"], fs[k]["n"], fs[k]["n"]))
                k += 1
            else:
                j = rng.randint(k + 1, len(fs))
                cmds.append("mult " + " ".join("%s f%d %d" % (f["k"], f["n"], f["n"]) for f in fs[k:j]))
                k = j
        cmds.append("close")
        runs.append({"c": "single", "order": o2, "l": l, "fields": fs, "name": name})
    if rng.random() < .6:
        name = "q%d" % i
        cmds.append("tec " + name)
        zs = []
        for k in range(rng.randint(1, 3)):
            z = {"title": "zone%d" % k, "same": bool(k and rng.random() < .5), "t": rng.randint(0, 99), "n": rng.randint(1, 9)}
            zs.append(z)
            cmds.append("zone %s %d %d %d" % (z["title"], z["same"], z["t"], z["n"]))
        cmds.append("close")
        runs.append({"c": "tec", "zones": zs, "name": name})
    return cmds, runs


def body(c):
    e = build("outfiles", ["outfiles.cpp"], "real")
    c.model(tlc("OutputModel", CFG % ("1,2,3", "0,1", '"s","v"', 4 if THOROUGH else 3, "FALSE")), "write histories")
    hists, r = gen_histories("OutputModel", CFG % ("0,1,2,3,4", "0,1", '"s","v","t"', 6, "TRUE"), args=["-simulate", "num=%d" % (900 if THOROUGH else 150), "-depth", "7", "-seed", str(SEED)], workers=1)
    hists = [[dict(x) for x in h] for h in hists]
    if len(hists) < 10:
        raise CheckError("no histories: " + r.out[-1500:])
    c.rng.shuffle(hists)
    for h in hists:                        # short histories too, and other sets of times
        del h[c.rng.randint(1, len(h)):]
        tm = c.rng.sample(range(len(TIMES)), 5)
        for x in h:
            x["t"] = tm[x["t"]]
    d = scratch("c19")
    n = 500 if THOROUGH else 100
    batches = {}
    for i in range(n):
        np_ = c.rng.choice([1, 2, 2, 3, 4])
        dim = c.rng.choice([1, 2, 2, 3])
        kinds = c.rng.choice(["cube", "simplex", "mixed"] + (["prism", "pyr"] if dim == 3 else [])) if dim > 1 else "cube"
        mesh = random_mesh(c.rng, dim, np_, kinds=kinds, small=dim == 3)
        sd = os.path.join(d, "np%d" % np_)
        os.makedirs(os.path.join(sd, "sub"), exist_ok=True)
        b = batches.setdefault(np_, Batch(np_, sd))
        cmds, runs = plan(c.rng, i, hists[i % len(hists)] if c.rng.random() < .8 else None, {kinds} if dim == 3 else set())
        b.add(mesh, cmds, tag=runs)
    cases = []
    for b in batches.values():
        for res in b.run(e):
            cs = b.cases[res["case"]]
            if "error" in res:
                c.violation("writing output failed: " + res["error"], {"commands": cs["commands"], "mesh": mesh_key(cs["mesh"])})
                return
            el = [R["el"] for R in res["ev"][0]["r"]]
            ev = []
            for run in cs["tag"]:
                run = dict(run)
                try:
                    if run["c"] == "time":
                        run["index"], run["frames"] = collection(os.path.join(b.d, run["sub"]), run["name"], run["order"])
                    elif run["c"] == "single":
                        run["frame"] = frame(b.d, run["name"], run["order"])
                    else:
                        run["files"] = [tecplot(os.path.join(b.d, "%s.%d" % (run["name"], k)), cs["mesh"]["dim"]) for k in range(b.np)]
                except (Format, ET.ParseError, OSError, KeyError, ValueError, AttributeError, struct.error, TypeError) as x:
                    c.violation("unreadable output: %s %s" % (type(x).__name__, x), {"run": {k: v for k, v in run.items() if k not in ("frames", "frame", "files")}, "commands": cs["commands"], "np": b.np})
                    return
                ev.append(run)
            cases.append({"dim": cs["mesh"]["dim"], "el": el, "ev": ev})
    c.sample({"commands": batches[min(batches)].cases[0]["commands"]})

    def corrupt(cs):
        for x in cs:
            for v in x["ev"]:
                if v["c"] == "single" and v["fields"] and v["frame"]["pieces"][0]["nc"] > 1:
                    w = v["frame"]["pieces"][0]["con"]
                    w[0], w[1] = w[1], w[0]
                    return [x]
    judge(c, "OutputTrace", cases, corrupt=corrupt, label="written files")


main("C19", body)
