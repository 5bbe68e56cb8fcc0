"""Running the harness of shallow granular flows."""
from dist import *
import glob, math


def flow_exe():
    a = os.path.join(REPO, "applications/SavageHutter")
    src = sorted(x for x in glob.glob(a + "/**/*.cpp", recursive=True) if os.path.basename(x) != "main.cpp")
    return build("flow", ["flow.cpp"] + src, "plain", extra_inc=[a])


class FlowBatch(Batch):
    def add(self, mesh, order, mode, commands, seed=0, tag=None):
        f = os.path.join(self.d, "f%d_%d.hpgem" % (self.np, len(self.cases)))
        meshgen.write(mesh, f)
        self.lines += ["case %d %d %d %s %d %d" % (mesh["dim"], seed, mode, f, order, max(x[0] for ps in mesh["nodes"] for x in ps))] + list(commands) + ["end"]
        self.cases.append({"mesh": mesh, "commands": list(commands), "order": order, "tag": tag})


def faces(mesh):
    """Faces with the elements on both sides (0 outside), five times the unit normal of the first, the length, and the
    middle of the face relative to the first node of each element."""
    dim = mesh["dim"]
    xy = [[mesh["nodes"][n][i] for n, i in e] for e in mesh["elems"]]
    ents = mesh["faces"]
    if dim == 1:
        ents = [[] for _ in mesh["nodes"]]
        for k, e in enumerate(mesh["elems"]):
            for l, (n, _) in enumerate(e):
                ents[n].append((k, l))
    out = []
    for inc in ents:
        rec = {"e": [], "n": None, "l": 1, "x": [], "t": [], "b": 0}
        for k, l in inc:
            co = xy[k]
            loc = [co[i] for i in meshgen.FACES[(dim, len(co))][l]]
            mid = [sum(p[d] for p in loc) / len(loc) - co[0][d] for d in range(dim)]
            if dim == 1:
                n, ln = [5 if loc[0][0] == max(c[0] for c in co) else -5, 0], 1
            else:
                t = [loc[1][d] - loc[0][d] for d in (0, 1)]
                ln = math.isqrt(t[0] ** 2 + t[1] ** 2)
                assert ln * ln == t[0] ** 2 + t[1] ** 2
                cen = [sum(p[d] for p in co) / len(co) - co[0][d] for d in (0, 1)]
                n = [5 * t[1] // ln, -5 * t[0] // ln]
                assert [n[0] * ln, n[1] * ln] == [5 * t[1], -5 * t[0]]
                if sum(n[d] * (mid[d] - cen[d]) for d in (0, 1)) < 0:
                    n = [-n[0], -n[1]]
            rec["e"].append(k + 1)
            rec["x"].append([int(2 * m) for m in mid] + [0] * (2 - dim))       # twice the distance
            rec["t"].append(1 + l if dim == 1 else 1)                          # which trace
            if rec["n"] is None:
                rec["n"], rec["l"] = n, ln
        if len(inc) == 1:
            rec["b"] = 1 if rec["n"][1] == 0 and rec["n"][0] > 0 else 2 if rec["n"][1] == 0 else 3
        out.append(rec)
    return out


def measure(mesh, k):
    co = [mesh["nodes"][n][i] for n, i in mesh["elems"][k]]
    if mesh["dim"] == 1:
        return abs(co[1][0] - co[0][0])
    a = abs((co[1][0] - co[0][0]) * (co[2][1] - co[0][1]) - (co[1][1] - co[0][1]) * (co[2][0] - co[0][0]))
    return a if len(co) == 4 else a // 2
