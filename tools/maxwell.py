"""Running the harness of DG-Max's discretisations."""
from dist import *
A = os.path.join(REPO, "applications", "DG-Max")


def maxwell_exe():
    s = lambda x: os.path.join(A, x)
    return build("maxwell", ["maxwell.cpp", s("Algorithms/DGMaxDiscretization.cpp"), s("Algorithms/AbstractDiscretization.cpp"), s("ElementInfos.cpp"), s("DGMaxLogger.cpp")],
                 "complex", extra_inc=[A])


def divmax_exe():
    s = lambda x: os.path.join(A, x)
    return build("divmax", ["divmax.cpp", s("Algorithms/DivDGMaxDiscretization.cpp"), s("Algorithms/AbstractDiscretization.cpp"), s("ElementInfos.cpp"), s("DGMaxLogger.cpp")],
                 "complex", extra_inc=[A])


def simplices(rng, np_):
    """triangles or tetrahedra, mostly not regular; cells that are their own neighbours do not work"""
    dim = rng.choice([2, 2, 3])
    while True:
        m = random_mesh(rng, dim, np_, kinds="simplex")
        if not any(m["per"][k] and m["n"][k] < 3 for k in range(dim)):
            break
    if dim == 2 and rng.random() < .6:
        meshgen.distort(m, rng)
    elif dim == 3 and rng.random() < .8:
        s, t, u = rng.randint(-1, 1), rng.randint(-1, 1), rng.randint(-1, 1)
        for cs in m["nodes"]:
            cs[:] = [(x + s * y, y + t * z, z + u * (x + s * y)) for x, y, z in cs]
    return m


class MaxwellBatch(Batch):
    def add(self, mesh, order, mode, proj, seed, commands, tag=None):
        f = os.path.join(self.d, "x%d_%d.hpgem" % (self.np, len(self.cases)))
        meshgen.write(mesh, f)
        self.lines += ["case %d %d %s %d %d %d" % (mesh["dim"], seed, f, order, mode, proj)] + list(commands) + ["end"]
        self.cases.append({"mesh": mesh, "commands": list(commands), "tag": tag, "what": (order, mode, proj)})


def facets_exe():
    s = lambda x: os.path.join(A, x)
    return build("facets", ["facets.cpp", s("Utils/FluxFacets.cpp"), s("ElementInfos.cpp"), s("DGMaxLogger.cpp")], "complex", extra_inc=[A])


def layers_exe():
    s = lambda x: os.path.join(A, x)
    return build("layers", ["layers.cpp", s("Utils/PMLTransmission.cpp"), s("Utils/ZoneStructureDescription.cpp"), s("Utils/StructureDescription.cpp"), s("ElementInfos.cpp"), s("DGMaxLogger.cpp")],
                 "complex", extra_inc=[A])


def patterns_exe():
    s = lambda x: os.path.join(A, x)
    return build("patterns", ["patterns.cpp", s("ProblemTypes/Harmonic/InterfaceReflectionField.cpp"), s("ElementInfos.cpp"), s("DGMaxLogger.cpp")], "complex", extra_inc=[A])
