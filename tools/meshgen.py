"""Abstract meshes and their mesh files (format: MESHING.md), independent of hpGEM's own tools.

A mesh is a dict:
  dim, nodes: [[coord,...], ...] (list of coordinate tuples per node),
  elems: [[(node, coordinate index), ...], ...], faces/edges: [[(elem, local), ...], ...],
  zones: names, zone: [zone index per element], owner: [part per element], nparts
"""
import itertools, random

FACES = {
    (1, 2): [(0,), (1,)],
    (2, 4): [(0, 1), (0, 2), (1, 3), (2, 3)],
    (2, 3): [(0, 1), (0, 2), (1, 2)],
    (3, 8): [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)],
    (3, 4): [(0, 3, 2), (0, 1, 3), (0, 2, 1), (1, 2, 3)],
    (3, 6): [(0, 2, 1), (3, 4, 5), (2, 0, 5, 3), (0, 1, 3, 4), (1, 2, 4, 5)],
    (3, 5): [(3, 4, 1, 2), (3, 1, 0), (2, 4, 0), (1, 2, 0), (4, 3, 0)],
}
EDGES = {
    (3, 8): [(0, 1), (2, 3), (4, 5), (6, 7), (0, 2), (1, 3), (4, 6), (5, 7), (0, 4), (1, 5), (2, 6), (3, 7)],
    (3, 4): [(0, 1), (0, 2), (0, 3), (2, 3), (1, 3), (1, 2)],
    (3, 6): [(0, 1), (0, 2), (1, 2), (3, 4), (3, 5), (4, 5), (0, 3), (1, 4), (2, 5)],
    (3, 5): [(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (2, 4), (4, 3), (3, 1)],
}
# elements of second order: vertices and middles of edges, first coordinate fastest
CURVED = {3: [0, (0, 1), 1, (0, 2), (1, 2), 2], 4: [0, (0, 1), 1, (0, 2), (1, 2), 2, (0, 3), (1, 3), (2, 3), 3]}
for _n, _o in CURVED.items():
    for _t in (FACES, EDGES):
        if (_n - 1, _n) in _t:
            _t[(_n - 1, len(_o))] = [tuple(i for i, x in enumerate(_o) if set(x if isinstance(x, tuple) else (x,)) <= set(f)) for f in _t[(_n - 1, _n)]]


def _even(p):
    return sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i]) % 2 == 0


def _rotations():
    r = {(1, 2): [(0, 1)],
         (2, 4): [(0, 1, 2, 3), (1, 3, 0, 2), (3, 2, 1, 0), (2, 0, 3, 1)],
         (2, 3): [(0, 1, 2), (1, 2, 0), (2, 0, 1)],
         (3, 4): [p for p in itertools.permutations(range(4)) if _even(p)]}
    cube = []
    for ax in itertools.permutations(range(3)):
        for fl in itertools.product((0, 1), repeat=3):
            if _even(ax) == (sum(fl) % 2 == 0):
                p = []
                for k in range(8):
                    b = [(k >> d) & 1 for d in range(3)]
                    q = [b[ax[d]] ^ fl[d] for d in range(3)]
                    p.append(q[0] + 2 * q[1] + 4 * q[2])
                cube.append(tuple(p))
    r[(3, 8)] = cube
    pr = []
    for c in [(0, 1, 2), (1, 2, 0), (2, 0, 1)]:
        pr.append(tuple(c) + tuple(x + 3 for x in c))
        f = (c[0], c[2], c[1])
        pr.append(tuple(x + 3 for x in f) + tuple(f))
    r[(3, 6)] = pr
    r[(3, 5)] = [(0,) + tuple(1 + x for x in s) for s in r[(2, 4)]]
    return r


ROT = _rotations()


def grid(dim, n, per, rng, kinds="mixed", rotate=True, permute=True):
    """Box of n[d] cells with spacing 2 in every direction (odd coordinates are free for centres)."""
    L = [2 * n[d] for d in range(dim)]
    wrap = lambda x: tuple(x[d] % L[d] if per[d] else x[d] for d in range(dim))
    cells = list(itertools.product(*[range(n[d]) for d in range(dim)]))
    colkind = {}
    raw = []
    for c in cells:
        v = lambda *o: tuple(2 * (c[d] + o[d]) for d in range(dim))
        if dim == 1:
            raw.append([v(0), v(1)])
        elif dim == 2:
            sq = [v(0, 0), v(1, 0), v(0, 1), v(1, 1)]
            k = rng.choice(["s", "t", "u"]) if kinds == "mixed" else {"cube": "s", "simplex": "t"}[kinds]
            if k == "s":
                raw.append(sq)
            elif k == "t":
                raw += [[sq[0], sq[1], sq[2]], [sq[1], sq[3], sq[2]]]
            else:
                raw += [[sq[0], sq[1], sq[3]], [sq[0], sq[3], sq[2]]]
        else:
            cb = [v(k & 1, (k >> 1) & 1, (k >> 2) & 1) for k in range(8)]
            if kinds == "mixed":
                col = colkind.setdefault(c[:2], rng.choice(["column", "prism", "msirp"]))
                k = rng.choice(["cube", "pyr"]) if col == "column" else col
            else:
                k = {"cube": "cube", "simplex": "tet", "prism": "prism", "pyr": "pyr"}[kinds]
            if k == "cube":
                raw.append(cb)
            elif k == "prism":
                raw += [[cb[i] for i in (0, 1, 2, 4, 5, 6)], [cb[i] for i in (1, 3, 2, 5, 7, 6)]]
            elif k == "msirp":
                raw += [[cb[i] for i in (0, 1, 3, 4, 5, 7)], [cb[i] for i in (0, 3, 2, 4, 7, 6)]]
            elif k == "pyr":
                m = tuple(x + 1 for x in cb[0])
                for f in FACES[(3, 8)]:
                    q = [cb[i] for i in f]
                    nrm = _det([[q[1][d] - q[0][d] for d in range(3)], [q[2][d] - q[0][d] for d in range(3)],
                                [m[d] - q[0][d] for d in range(3)]])
                    raw.append([m] + (q if nrm > 0 else [q[1], q[0], q[3], q[2]]))
            else:
                for ax in itertools.permutations(range(3)):
                    p = [[0, 0, 0]]
                    for a in ax:
                        z = list(p[-1])
                        z[a] = 1
                        p.append(z)
                    t = [v(*o) for o in p]
                    d = _det([[t[i][k2] - t[0][k2] for k2 in range(3)] for i in (1, 2, 3)])
                    raw.append(t if d > 0 else [t[0], t[1], t[3], t[2]])
    if permute:
        rng.shuffle(raw)
    if rotate:
        raw = [[e[i] for i in rng.choice(ROT[(dim, len(e))])] for e in raw]
    # nodes
    pts = sorted({wrap(x) for e in raw for x in e})
    if permute:
        rng.shuffle(pts)
    idx = {p: i for i, p in enumerate(pts)}
    coords = [[] for _ in pts]
    cidx = {}
    for x in sorted({x for e in raw for x in e}):
        i = idx[wrap(x)]
        cidx[x] = (i, len(coords[i]))
        coords[i].append(x)
    elems = [[cidx[x] for x in e] for e in raw]
    ents = []
    for tab in (FACES, EDGES):
        m = {}
        for ei, e in enumerate(raw):
            for li, loc in enumerate(tab.get((dim, len(e)), [])):
                # the doubled, wrapped vertex coordinates' sums identify the entity (also for two cells per period)
                k = len(loc)
                s = tuple(sum(e[j][d] for j in loc) for d in range(dim))
                key = (k,) + tuple(s[d] % (L[d] * k) if per[d] else s[d] for d in range(dim))
                m.setdefault(key, []).append((ei, li))
        keys = list(m)
        if permute:
            rng.shuffle(keys)
            for k in keys:
                rng.shuffle(m[k])
        ents.append([m[k] for k in keys])
    return {"dim": dim, "nodes": coords, "elems": elems, "faces": ents[0],
            "edges": ents[1] if dim > 2 else [], "zones": ["Main"], "zone": [0] * len(elems),
            "owner": [0] * len(elems), "nparts": 1, "per": list(per), "n": list(n)}


def _det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def zones(mesh, rng, names):
    mesh["zones"] = names
    mesh["zone"] = [rng.randrange(len(names)) for _ in mesh["elems"]]


def partition(mesh, nparts, rng, how="random"):
    n = len(mesh["elems"])
    if how == "random":
        own = [rng.randrange(nparts) for _ in range(n)]
    elif how == "blocks":
        ctr = [tuple(sum(mesh["nodes"][a][b][d] for a, b in e) / len(e) for d in range(mesh["dim"])) for e in mesh["elems"]]
        order = sorted(range(n), key=lambda i: ctr[i])
        own = [0] * n
        for r, i in enumerate(order):
            own[i] = r * nparts // n
    elif how == "empty":     # one part owns nothing
        skip = rng.randrange(nparts)
        own = [rng.choice([p for p in range(nparts) if p != skip or nparts == 1]) for _ in range(n)]
    mesh["owner"], mesh["nparts"] = own, nparts


def shadows(mesh):
    """Parts that own an element sharing a node with the element, other than its owner."""
    at = [set() for _ in mesh["nodes"]]
    for e, o in zip(mesh["elems"], mesh["owner"]):
        for n, _ in e:
            at[n].add(o)
    return [sorted(set().union(*[at[n] for n, _ in e]) - {o}) for e, o in zip(mesh["elems"], mesh["owner"])]


def scaled(mesh, x):
    return [xx / 8.0 for xx in x]


def write(mesh, path, version=2):
    sh = shadows(mesh)
    parts = [sorted({o, *s}) for o, s in zip(mesh["owner"], sh)]
    nodeparts = [set() for _ in mesh["nodes"]]
    for e, p in zip(mesh["elems"], parts):
        for n, _ in e:
            nodeparts[n] |= set(p)
    o = ["mesh %d" % version]
    o.append(" ".join(map(str, [len(mesh["nodes"]), len(mesh["elems"]), mesh["dim"]] +
                          ([len(mesh["faces"])] if mesh["dim"] > 1 else []) + ([len(mesh["edges"])] if mesh["dim"] > 2 else []))))
    o.append(" ".join(map(str, [mesh["nparts"]] + [sum(p in s for s in nodeparts) for p in range(mesh["nparts"])])))
    if version > 1:
        o += ["zones", str(len(mesh["zones"]))] + mesh["zones"] + ["nodes"]
    for cs, ps in zip(mesh["nodes"], nodeparts):
        o.append(" ".join(map(str, [len(ps)] + sorted(ps))))
        o.append(" ".join([str(len(cs))] + [float.hex(v) for c in cs for v in scaled(mesh, c)]))
    if version > 1:
        o.append("elements")
    for e, ow, s, z in zip(mesh["elems"], mesh["owner"], sh, mesh["zone"]):
        o.append(" ".join(map(str, [len(e)] + [x for p in e for x in p] + [ow, len(s)] + s)))
        if version > 1:
            o.append(str(z))
    for name, ents in (("codim1", mesh["faces"]), ("codim2", mesh["edges"])):
        if mesh["dim"] < (2 if name == "codim1" else 3):
            continue
        if version > 1:
            o.append(name)
        for en in ents:
            ps = sorted(set().union(*[parts[e] for e, _ in en]))
            o.append(" ".join(map(str, [len(en)] + [x for p in en for x in p] + [len(ps)] + ps)))
    with open(path, "w") as f:
        f.write("\n".join(o) + "\n")


def as_json(mesh):
    """What the specification sees: everything 1-based, nodes per element, incidences, owners."""
    return {"dim": mesh["dim"], "np": mesh["nparts"], "ne": len(mesh["elems"]), "nn": len(mesh["nodes"]),
            "el": [[n + 1 for n, _ in e] for e in mesh["elems"]],
            "co": [[[int(v) for v in mesh["nodes"][n][c]] for n, c in e] for e in mesh["elems"]],
            "ow": [x + 1 for x in mesh["owner"]], "sh": [[p + 1 for p in s] for s in shadows(mesh)],
            "zo": [mesh["zones"][z] for z in mesh["zone"]],
            "fa": [[[e + 1, l] for e, l in f] for f in mesh["faces"]],
            "ed": [[[e + 1, l] for e, l in f] for f in mesh["edges"]]}


# -------------------------------------------------- pairs of neighbours in every relative position
def _shape(dim, n):
    """One element on an integer lattice (spacing 6), so that vertices can be moved by one unit."""
    if dim == 1:
        return [(0,), (6,)]
    if (dim, n) == (2, 3):
        return [(0, 0), (6, 0), (0, 6)]
    if (dim, n) == (2, 4):
        return [(0, 0), (6, 0), (0, 6), (6, 6)]
    if n == 8:
        return [(6 * (k & 1), 6 * ((k >> 1) & 1), 6 * ((k >> 2) & 1)) for k in range(8)]
    if n == 4:
        return [(0, 0, 0), (6, 0, 0), (0, 6, 0), (0, 0, 6)]
    if n == 6:
        return [(0, 0, 0), (6, 0, 0), (0, 6, 0), (0, 0, 6), (6, 0, 6), (0, 6, 6)]
    return [(0, 0, 6), (-6, -6, 0), (6, -6, 0), (-6, 6, 0), (6, 6, 0)]


def symmetries(dim, n):
    """Renumberings of the vertices that keep the shape: all of them, mirrored ones included."""
    if (dim, n) in ((1, 2), (2, 3), (3, 4)):
        return list(itertools.permutations(range(n)))
    if n == 5:
        return [(0,) + tuple(1 + x for x in s) for s in symmetries(2, 4)]
    if (dim, n) == (3, 6):
        return [tuple(s) + tuple(x + 3 for x in s) for s in itertools.permutations(range(3))] + \
               [tuple(x + 3 for x in s) + tuple(s) for s in itertools.permutations(range(3))]
    out = []
    for ax in itertools.permutations(range(dim)):
        for fl in itertools.product((0, 1), repeat=dim):
            out.append(tuple(sum(((((k >> ax[d]) & 1) ^ fl[d]) << d) for d in range(dim)) for k in range(1 << dim)))
    return out


def neighbours(dim):
    """(shape A, facet of A, shape B, facet of B), with facets of the same kind; one facet per kind and shape."""
    sh = {1: [2], 2: [3, 4], 3: [4, 5, 6, 8]}[dim]
    kinds = []
    for n in sh:
        seen = set()
        for i, f in enumerate(FACES[(dim, n)]):
            if len(f) not in seen:      # the symmetries of every shape reach all its facets of the same kind
                seen.add(len(f))
                kinds.append((n, i))
    return [(a, i, b, j) for a, i in kinds for b, j in kinds if a <= b and len(FACES[(dim, a)][i]) == len(FACES[(dim, b)][j])]


def pairs(dim, rng, count=None, only=None, jitter=True):
    """A mesh of separate pairs of elements sharing a facet, in every relative numbering (or a sample of them)."""
    todo = []
    for a, i, b, j in neighbours(dim):
        if only and not (a in only and b in only):
            continue
        for sa in symmetries(dim, a):
            for sb in symmetries(dim, b):
                todo.append((a, i, sa, b, j, sb))
    rng.shuffle(todo)
    todo = todo[:count] if count else todo
    nodes, elems, faces, edges = [], [], [], []
    for k, (a, i, sa, b, j, sb) in enumerate(todo):
        A = _shape(dim, a)
        fa, fb = FACES[(dim, a)][i], FACES[(dim, b)][j]
        # B: its facet on the facet of A, the other vertices mirrored to the other side
        coord = {}
        off = [40 * k if d == 0 else 0 for d in range(dim)]
        move = lambda v: tuple(v[d] + (rng.randint(-1, 1) if jitter else 0) for d in range(dim))
        first = len(nodes)
        ida = []
        for v in A:
            ida.append(len(nodes))
            nodes.append([move(v)])
        B = _attach(dim, A, fa, b, fb)
        idb = [None] * b
        for q, vtx in zip(fb, fa):
            idb[q] = ida[vtx]
        for q in range(b):
            if idb[q] is None:
                idb[q] = len(nodes)
                nodes.append([move(B[q])])
        for x in range(first, len(nodes)):
            nodes[x] = [tuple(nodes[x][0][d] + off[d] for d in range(dim))]
        ea = [ida[x] for x in sa]
        eb = [idb[x] for x in sb]
        base = len(elems)
        el = [(base, ea), (base + 1, eb)]
        if rng.random() < .5:
            el = [(base, eb), (base + 1, ea)]
        elems += [[(x, 0) for x in e] for _, e in el]
        for tab, ents in ((FACES, faces), (EDGES, edges)):
            m = {}
            for n_, e in el:
                for li, loc in enumerate(tab.get((dim, len(e)), [])):
                    m.setdefault(frozenset(e[x] for x in loc), []).append((n_, li))
            for key in m:
                rng.shuffle(m[key])
                ents.append(m[key])
    return {"dim": dim, "nodes": nodes, "elems": elems, "faces": faces, "edges": edges if dim > 2 else [],
            "zones": ["Main"], "zone": [0] * len(elems), "owner": [0] * len(elems), "nparts": 1, "per": [False] * dim, "n": [0] * dim}


def _attach(dim, A, fa, b, fb):
    """Coordinates of a convex element of shape b whose facet fb has the vertices of facet fa of A (in that order)."""
    P = [A[x] for x in fa]
    ca = [sum(v[d] for v in A) / len(A) for d in range(dim)]
    cf = [sum(v[d] for v in P) / len(P) for d in range(dim)]
    # a direction away from A
    if dim == 1:
        nrm = [1.0]
    elif dim == 2:
        nrm = [P[1][1] - P[0][1], P[0][0] - P[1][0]]
    else:
        u = [P[1][d] - P[0][d] for d in range(3)]
        w = [P[2][d] - P[0][d] for d in range(3)]
        nrm = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
    ln = sum(x * x for x in nrm) ** .5
    nrm = [x / ln for x in nrm]
    if sum(nrm[d] * (cf[d] - ca[d]) for d in range(dim)) < 0:
        nrm = [-x for x in nrm]
    out = [None] * b
    for q, v in zip(fb, P):
        out[q] = v
    rest = [q for q in range(b) if out[q] is None]
    up = lambda v, h=7: tuple(int(round(v[d] + h * nrm[d])) for d in range(dim))
    for q in rest:
        if len(rest) == 1:
            out[q] = up(cf)
        elif len(rest) == len(fb):          # the opposite facet is a copy
            near = [x for x in fb if any(q in e and x in e for e in EDGES.get((dim, b), []) + ([] if dim > 2 else FACES[(dim, b)]))]
            out[q] = up(out[near[0]])
        else:                               # prism on a quadrilateral: the far edge above the middle
            near = [x for x in fb if any(q in e and x in e for e in EDGES[(dim, b)])]
            m = tuple(sum(out[x][d] for x in near) / len(near) for d in range(dim))
            out[q] = up(m)
    if dim == 3 and b == 5 and len(fb) == 3:   # pyramid on a triangle: base vertices complete a parallelogram
        tri = [x for x in fb if x != 0]
        opp = {1: 4, 2: 3, 3: 2, 4: 1}
        o = {x: None for x in rest}
        for q in rest:
            nb = [x for x in tri if opp[x] != q][0]
            out[q] = tuple(int(round(out[nb][d] + 6 * nrm[d])) for d in range(dim))
    return out


def distort(mesh, rng):
    """Triple the coordinates and move every node by at most one unit (all its coordinates alike)."""
    for cs in mesh["nodes"]:
        mv = [rng.randint(-1, 1) for _ in range(mesh["dim"])]
        cs[:] = [tuple(3 * c[d] + mv[d] for d in range(mesh["dim"])) for c in cs]
    mesh["stretch"] = 3
    return mesh


def curve(mesh, rng, scale=8):
    """Elements of second order with curved edges from a mesh of triangles or tetrahedra."""
    dim, L = mesh["dim"], [2 * n for n in mesh["n"]]
    X = lambda v: mesh["nodes"][v[0]][v[1]]
    mid, where = {}, {}
    nodes = [[tuple(scale * x for x in c) for c in cs] for cs in mesh["nodes"]]
    elems = []
    for e in mesh["elems"]:
        out = []
        for x in CURVED[len(e)]:
            if not isinstance(x, tuple):
                out.append(e[x])
                continue
            a, b = X(e[x[0]]), X(e[x[1]])
            s = tuple(p + q for p, q in zip(a, b))
            key = tuple(s[d] % (2 * L[d]) if mesh["per"][d] else s[d] for d in range(dim))
            if key not in mid:
                mv = [0] * dim      # along one axis only: the elements stay invertible
                mv[rng.randrange(dim)] = rng.randint(-1, 1)
                mid[key] = (len(nodes), tuple(mv))
                nodes.append([])
            n, move = mid[key]
            if (n, s) not in where:
                where[(n, s)] = len(nodes[n])
                nodes[n].append(tuple(scale * s[d] // 2 + move[d] for d in range(dim)))
            out.append((n, where[(n, s)]))
        elems.append(out)
    order = list(range(len(nodes)))
    rng.shuffle(order)
    mesh["nodes"] = [nodes[i] for i in order]
    to = {i: k for k, i in enumerate(order)}
    mesh["elems"] = [[(to[n], c) for n, c in e] for e in elems]
    mesh["curved"] = True
    return mesh
