"""C05: every process reads from a mesh file exactly what the file assigns to it."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from dist import *


def body(c):
    e = exe()
    # 1. all small files: readers as independent processes
    for ne, nn, np_ in ([(3, 3, 2), (2, 3, 3)] if not THOROUGH else [(3, 4, 2), (3, 4, 3), (4, 4, 2)]):
        c.model(tlc("DistMesh", "CONSTANTS MaxE=%d MaxN=%d NP=%d NodesPer=2\nSPECIFICATION Spec\n" % (ne, nn, np_) +
                    "INVARIANTS SameIdentifiers ExactlyTheAssigned OwnedOnce OwnedFacesComplete Mirror\n"),
                "DistMesh readers, %d elements %d nodes %d processes" % (ne, nn, np_))
    # 2. real reads
    d = scratch("c05")
    rng = c.rng
    cases = []
    for np_ in (1, 2, 3, 4):
        b = Batch(np_, d)
        n = 20 if THOROUGH else 6
        dims = [1] * n + [2] * n + [3] * n
        rng.shuffle(dims)
        for i, dim in enumerate(dims):
            b.add(random_mesh(rng, dim, np_, curved=.2), ["dump"], version=1 if rng.random() < .2 else 2, nu=rng.randint(1, 2))
        for r in b.run(e):
            mesh = b.cases[r["case"]]["mesh"]
            if "error" in r:
                c.violation("reading a valid mesh file failed: " + r["error"][:300], mesh_key(mesh))
                return
            cases.append(hints(mesh, r["ev"]))
    c.sample({"np": cases[-1]["m"]["np"], "mesh": cases[-1]["m"]})

    def corrupt(cs):
        x = [y for y in cs if y["m"]["np"] > 1 and y["m"]["dim"] == 2 and y["ev"][0]["r"][0]["fa"]][0]
        f = x["ev"][0]["r"][0]["fa"][-1]
        f["t"] = 1 if f["t"] != 1 else 3
        return [x]
    judge(c, "MeshReadTrace", cases, corrupt=corrupt, label="mesh files read by 1-4 processes")


main("C05", body)
