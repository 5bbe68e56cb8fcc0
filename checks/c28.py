"""C28: a time integration scheme has the order, the stages and the properties it is looked up by."""
import sys, os
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *


def body(c):
    e = build("schemes", ["schemes.cpp"], "plain")
    c.model(tlc("RungeKutta", "SPECIFICATION Spec\nINVARIANT Theorems\nCHECK_DEADLOCK FALSE\n"), "order conditions recognise known schemes and their order")
    asked = [(o, s, t) for o in range(0, 8) for s in range(0, 10) for t in (0, 1)]
    r = run([e], 60, stdin="".join("%d %d %d\n" % a for a in asked))
    lines = r.out.splitlines()
    if r.rc or len(lines) != len(asked):
        c.violation("looking up schemes crashed: " + (r.out + r.err)[-300:], {"asked": str(asked[len(lines)] if len(lines) < len(asked) else "")})
        return
    rules, look = {}, []
    for a, l in zip(asked, lines):
        x = json.loads(l)
        got = [{k: x[k] for k in ("o", "s", "tvd")}] if x else []
        look.append({"o": a[0], "s": a[1], "tvd": bool(a[2]), "got": got})
        if x:
            rules[x["id"]] = x
    cases = []

    def fraction(h):
        v = float.fromhex(h)
        f = Fraction(v).limit_denominator(1000000)
        if abs(float(f) - v) > 1e-14 * max(1, abs(v)):
            raise ValueError("coefficient %r is not a fraction" % v)
        return [f.numerator, f.denominator]
    for x in rules.values():
        try:
            for k in ("b", "c", "e"):
                x[k] = [fraction(h) for h in x[k]]
            x["A"] = [[fraction(h) for h in row] for row in x["A"]]
        except ValueError as ex:
            c.violation("scheme of order %d with %d stages: %s" % (x["o"], x["s"], ex), {"rule": x})
            return
        x["k"] = "rule"
        cases.append({"ev": [{k: v for k, v in x.items() if k not in ("id", "ns")}]})
        if x["ns"] != x["s"]:
            c.violation("two numbers of stages", {"rule": x})
    cases.append({"ev": [{"k": "all", "offered": [{k: x[k] for k in ("o", "s", "tvd", "est")} for x in rules.values()], "look": look}]})
    c.sample({"schemes": len(rules), "lookups": len(asked)})

    def corrupt(cs):
        for x in cs:
            q = x["ev"][0]
            if q["k"] == "rule" and q["s"] == 7:
                q["A"][5][2][0] += 1
                return [x]
    judge(c, "RungeKuttaTrace", cases, corrupt=corrupt, label="schemes and lookups", timeout=600)


main("C28", body)
