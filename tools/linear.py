"""Running the harness of linear problems and projections."""
from steps import *


def linear_exe(variant="real"):
    return build("linear", ["linear.cpp", "jitter.cpp"], variant)


class LinearBatch(Batch):
    def add(self, mesh, kind, commands, nu=1, order=1, nv=3, src=0, jitter=0, seed=0, tag=None):
        f = os.path.join(self.d, "l%d_%d.hpgem" % (self.np, len(self.cases)))
        meshgen.write(mesh, f)
        commands = ["info"] + list(commands)
        self.lines += ["case %d %d %d %s %s %d %d %d %d" % (mesh["dim"], seed, jitter, f, kind, nu, order, nv, src)] + commands + ["end"]
        self.cases.append({"mesh": mesh, "commands": commands, "kind": kind, "nv": nv, "src": src, "tag": tag})


def elements(case, evs):
    """Identifiers of elements to their index in the file, and the elements as the specification has them."""
    mesh = case["mesh"]
    t = file_tables(mesh)["el"]
    kof, el = {}, [None] * len(mesh["elems"])
    nb = neighbours(mesh)
    for R in evs[0]["r"]:
        for x in R["el"]:
            k = t.get(frozenset(tuple(p) for p in x["co"]), 0)
            if not k:
                raise CheckError("element without counterpart in the file")
            kof[x["id"]] = k
            el[k - 1] = {"id": x["id"] % 1000, "n": x["n"], "nb": nb[k - 1]}
    if None in el:
        raise CheckError("element owned by nobody")
    return kof, el
