"""C07: generated structured meshes tile the box and are conforming."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from prep import *

MODEL = "CONSTANTS MaxN=%d Dims={%s}\nSPECIFICATION Spec\nINVARIANTS TilesTheBox FitsIfRoom OddDoesNotFit\nCHECK_DEADLOCK FALSE\n"


def boxes(rng):
    """All small descriptions of dimension 1 and 2, a sample (thorough: more) in 3D."""
    out = []
    for dim, top in ((1, 7), (2, 4)):
        for n in itertools.product(range(1, top + 1), repeat=dim):
            for per in itertools.product((0, 1), repeat=dim):
                for tri in ((0, 1) if dim > 1 else (0,)):
                    if all(not p or ((c > 2 or dim == 1) and not (tri and c % 2)) for p, c in zip(per, n)):
                        out.append({"n": list(n), "per": list(per), "tri": tri, "lo": [rng.randint(-9, 9) for _ in n], "h": [rng.randint(1, 5) for _ in n]})
    for per in itertools.product((0, 1), repeat=3):
        for tri in (0, 1):
            n = [rng.choice([4] if tri else [3, 4]) if p else rng.randint(1, 3) for p in per]
            out.append({"n": n, "per": list(per), "tri": tri, "lo": [rng.randint(-9, 9) for _ in n], "h": [rng.randint(1, 5) for _ in n]})
    out += [random_box(rng, big=THOROUGH) for _ in range(400 if THOROUGH else 50)]
    return out


def known(q):
    return "c07-few-periodic-cells" if len(q["n"]) > 1 and any(p and c < 3 for p, c in zip(q["per"], q["n"])) else None


def body(c):
    e = prep_exe()
    c.model(tlc("StructuredModel", MODEL % (4, "1,2")), "boxes of up to 4 cells per direction, 1D and 2D")
    c.model(tlc("StructuredModel", MODEL % (4 if THOROUGH else 3, "3")), "boxes of up to %d cells per direction, 3D" % (4 if THOROUGH else 3))
    d = scratch("c07")
    qs = boxes(c.rng)
    few = [{"n": [2, 3], "per": [1, 0], "tri": 0, "lo": [0, 0], "h": [1, 1]}, {"n": [1, 3], "per": [1, 0], "tri": 0, "lo": [0, 0], "h": [1, 1]},
           {"n": [2, 3], "per": [1, 0], "tri": 1, "lo": [0, 0], "h": [1, 1]}, {"n": [2, 1, 3], "per": [1, 0, 0], "tri": 0, "lo": [0] * 3, "h": [1] * 3}]
    qs += few
    cmds = [(len(q["n"]), spec_lines(q, os.path.join(d, "s%d" % i)) + ["valid", "dump"]) for i, q in enumerate(qs)]
    res = run_prep(e, cmds, d)
    cases = [{"q": q, "ev": ev or [{"c": "error"}]} for q, ev in zip(qs, res)]
    c.sample({"description": qs[20]})

    def corrupt(cs):
        for x in cs:
            if len(x["q"]["n"]) == 2 and len(x["ev"][-1]["m"]["el"]) > 3:
                s = x["ev"][-1]["m"]["el"][1]["s"][1]
                s[0], s[1] = s[1], s[0]
                return [x]
    judge(c, "StructuredTrace", cases[:-len(few)], corrupt=corrupt, label="generated meshes", keyfn=lambda bad, pi: known(bad["q"]))
    judge(c, "StructuredTrace", cases[-len(few):], label="few cells in a periodic direction", keyfn=lambda bad, pi: known(bad["q"]))


main("C07", body)
