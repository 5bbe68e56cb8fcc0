"""Running the distributed harness on generated meshes and merging what the ranks recorded."""
import os, json, random
from vlib import *
import meshgen


def exe(variant="real"):
    return build("dist", ["dist.cpp", "jitter.cpp"], variant)


def random_mesh(rng, dim, np_, kinds=None, small=False, how=None, curved=0):
    """curved: the share of meshes with elements of second order."""
    curved = dim > 1 and (curved == 1 or curved > 0 and rng.random() < curved)
    if curved:
        kinds = "simplex"
    if dim == 1:
        n = [rng.randint(2, 3 if small else 7)]
    elif dim == 2:
        n = [rng.randint(2 if small else 1, 2 if small else 3), rng.randint(1, 2 if small else 3)]
    else:
        n = [rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 2)]
    # periodic directions need at least two cells: an element may not be its own neighbour
    per = [n[d] >= 2 and rng.random() < (.15 if dim == 3 else .4) for d in range(dim)]
    k = kinds or rng.choice({1: ["cube"], 2: ["mixed", "cube", "simplex"],
                             3: ["mixed", "cube", "simplex", "prism", "pyr"]}[dim])
    if dim == 3 and k in ("simplex", "pyr"):
        n = [rng.randint(1, 2), 1, 1]
        per = [False] * 3
    if dim == 1:
        k = "mixed"
    m = meshgen.grid(dim, n, per, rng, kinds=k)
    if curved:
        meshgen.curve(m, rng)
    if rng.random() < .6:
        meshgen.zones(m, rng, rng.sample(["Main", "left", "zone-2", "B_3"], rng.randint(1, 3)))
    meshgen.partition(m, np_, rng, how or rng.choice(["random", "random", "blocks", "empty"]))
    return m


class Batch:
    """Cases for one process count."""

    def __init__(self, np_, d):
        self.np, self.d, self.cases, self.lines = np_, d, [], []

    def add(self, mesh, commands, nu=1, tl=1, version=2, jitter=0, seed=0, tag=None):
        i = len(self.cases)
        f = os.path.join(self.d, "m%d_%d.hpgem" % (self.np, i))
        meshgen.write(mesh, f, version)
        if version == 1:
            mesh = dict(mesh, zones=["Main"], zone=[0] * len(mesh["elems"]))
        self.lines += ["case %d %d %d %s %d %d" % (mesh["dim"], seed, jitter, f, nu, tl)] + list(commands) + ["end"]
        self.cases.append({"mesh": mesh, "commands": list(commands), "tag": tag})

    def run(self, exe, timeout=120):
        """Returns per case the list of events [{c, r:[per rank record]}], or an error record."""
        ctl = os.path.join(self.d, "ctl%d" % self.np)
        open(ctl, "w").write("\n".join(self.lines) + "\n")
        outp = os.path.join(self.d, "out%d" % self.np)
        cmd = [exe, ctl, outp] + getattr(self, "args", [])
        r = mpirun(self.np, cmd, timeout=timeout, cwd=self.d)
        per = []
        for k in range(self.np):
            try:
                per.append([l for l in open("%s.%d" % (outp, k)).read().splitlines() if l])
            except OSError:
                raise CheckError("no output from rank %d: %s" % (k, (r.out + r.err)[-2000:]))
        res = []
        for i, c in enumerate(self.cases):
            recs = []
            for k in range(self.np):
                if i < len(per[k]):
                    try:
                        recs.append(json.loads(per[k][i]))
                    except ValueError:
                        recs.append({"err": "truncated output"})
                else:
                    recs.append(None)
            errs = [x for x in recs if x is not None and "err" in x]
            if errs or None in recs:
                if not errs and r.rc == 0:
                    raise CheckError("harness lost cases: " + (r.out + r.err)[-2000:])
                res.append({"error": (errs[0]["err"] + " at " + errs[0].get("cmd", "")) if errs else
                            ("time limit: processes never finished" if r.timed_out else "crash: " + (r.out + r.err)[-1500:]),
                            "case": i})
                break
            evs = []
            for j in range(len(recs[0]["ev"])):
                evs.append({"c": recs[0]["ev"][j]["c"], "r": [x["ev"][j] for x in recs]})
            res.append({"ev": evs, "case": i})
        return res


def mesh_key(mesh):
    return {"dim": mesh["dim"], "n": mesh.get("n"), "per": mesh.get("per"), "owner": mesh["owner"], "elements": mesh["elems"]}


def file_tables(mesh):
    t = {"el": {}, "fa": {}, "ed": {}, "no": {}}
    for k, e in enumerate(mesh["elems"]):
        t["el"][frozenset(tuple(int(v) for v in mesh["nodes"][n][c]) for n, c in e)] = k + 1
        for l, (n, _) in enumerate(e):
            t["no"][(k + 1, l)] = n + 1
    for kind, key in (("fa", "faces"), ("ed", "edges")):
        for k, inc in enumerate(mesh[key]):
            for e, l in inc:
                t[kind][(e + 1, l)] = k + 1
    return t


def hints(mesh, evs, c="dump"):
    """Add to every entity of a dump event the index k of the entity in the file (0 if there is none)."""
    t = file_tables(mesh)
    for ev in evs:
        if ev["c"] != c:
            continue
        for R in ev["r"]:
            kof = {}
            for x in R["el"]:
                x["k"] = t["el"].get(frozenset(tuple(p) for p in x["co"]), 0)
                kof[x["id"]] = x["k"]
            for kind in ("fa", "ed", "no"):
                for x in R[kind]:
                    x["k"] = t[kind].get((kof.get(x["in"][0][0], 0), x["in"][0][1]), 0) if x["in"] else 0
    return {"m": meshgen.as_json(mesh), "ev": evs}


def basis_commands(rng, nu, mesh, how=None):
    """Assign bases: everything DG, everything conforming, or a mix per unknown."""
    dim = mesh["dim"]
    # conforming functions of order > 1 exist for lines, triangles, squares, cubes and tetrahedra
    cmax = 1 if dim == 3 and any(len(x) in (5, 6) for x in mesh["elems"]) else (3 if dim < 3 else 2)
    # and discontinuous ones of order > 1 for all but pyramids
    dmax = 3 if dim < 3 else 1 if any(len(x) == 5 for x in mesh["elems"]) else 2
    order = lambda k: rng.randint(1, cmax if k == "conf" else dmax)
    how = how or rng.choice(["dg", "conf", "mixed", "mixed", "mono"])
    if how == "mono":
        return ["basis mono %d -1" % rng.randint(0, 2)]
    if how != "mixed":
        return ["basis %s %d -1" % (how, order(how))]
    cmds = []
    if rng.random() < .6:
        cmds = ["basis clear 0 0"]
        todo = list(range(nu))
    else:
        cmds = ["basis %s 1 -1" % rng.choice(["dg", "conf"])]
        todo = [u for u in range(nu) if rng.random() < .7]
    rng.shuffle(todo)
    for u in todo:
        k = rng.choice(["dg", "conf"]) if u else "conf"     # documented: DG for unknown 0 only through the overload for all
        cmds.append("basis %s %d %d" % (k, order(k), u))
    return cmds


def kinds_after(commands, nu):
    """Which unknowns have only element functions (dg/mono) after these basis commands."""
    k = ["dg"] * nu
    for c in commands:
        t = c.split()
        if t[0] == "basis" and t[1] != "clear":
            for u in range(nu):
                if int(t[3]) in (-1, u):
                    k[u] = t[1]
    return k


def small_bases(rng, nu, mesh, how=None):
    """Bases of low order, so that matrices stay small."""
    cmds = basis_commands(rng, nu, mesh, how)
    lim = 2 if mesh["dim"] < 3 and len(mesh["elems"]) < 7 else 1
    out = []
    for c in cmds:
        t = c.split()
        if t[1] != "clear":
            t[2] = str(min(int(t[2]), lim))
        out.append(" ".join(t))
    return out


def coupling(rng, rows, cols, kinds, np_, how=None):
    """A face coupling table; on a distributed mesh rows with face, edge or node functions cannot couple (documented)."""
    how = how or rng.choice(["all", "none", "t", "t"])
    bad = np_ > 1 and any(kinds[u] == "conf" for u in rows)
    if how == "all" and not bad:
        return "all", [[1] * len(cols) for _ in rows]
    if how == "none":
        return "none", [[0] * len(cols) for _ in rows]
    t = [[0 if np_ > 1 and kinds[u] == "conf" else int(rng.random() < .6) for _ in cols] for u in rows]
    return "t " + " ".join(str(x) for r in t for x in r), t


def pick_unknowns(rng, nu, none=.4):
    """Included unknowns: the argument of the index command and the resulting list."""
    if rng.random() < none:
        return "0", list(range(nu))
    us = sorted(rng.sample(range(nu), rng.randint(1, nu)))
    sh = list(us)
    rng.shuffle(sh)
    return "%d %s" % (len(us), " ".join(map(str, sh))), us


def attach_args(commands, evs):
    """Give every event the arguments of its command."""
    for c, e in zip([x for x in commands], evs):
        assert c.split()[0] == e["c"]
        e["a"] = c.split()[1:]


def run_batches(c, e, batches, fail):
    """Run all batches; errors of the library are violations. Returns [(batch, case record, events)] or None."""
    res = []
    for b in batches:
        for r in b.run(e):
            case = b.cases[r["case"]]
            if "error" in r:
                c.violation("%s: %s" % (fail, r["error"][:300]), {"mesh": mesh_key(case["mesh"]), "commands": case["commands"], "np": b.np})
                return None
            attach_args(case["commands"], r["ev"])
            res.append((b, case, r["ev"]))
    return res
