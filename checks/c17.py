"""C17: command lines are parsed into exactly the options given."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *


def tok(s, i="ERR", u=None, d=None):
    t = {"s": s, "i": i, "u": i if u is None else u, "d": i if d is None else d, "n": "", "f": [], "k": "bad"}
    if s == "--":
        t["k"] = "sep"
    elif s.startswith("--"):
        t["k"], t["n"] = "long", s[2:]
    elif s.startswith("-") and len(s) > 1:
        t["k"], t["f"] = "short", ["h" if ch == "?" else ch for ch in s[1:]]
    return t


A = [tok(x) for x in ("-a", "-n", "-an", "--num", "--str", "-s", "--", "abc")] + [tok("12", "12"), tok("-5", "-5", "ANY")]
B = A + [tok(x) for x in ("-b", "-ab", "-na", "-nn", "-d", "-u", "--dbl", "--uns", "--all", "--bee", "--only", "--nope", "-x", "-ax", "12abc", "",
                          "-", "+", "1e", "0x10", "--help", "-?", "-bs", "--req", "-r", "-abr", "--crashOnWarn", "---", "--num=3", "-n3", "1e999")] \
    + [tok("2.5", "ERR", "ERR", "2.5"), tok("1e3", "ERR", "ERR", "1000"), tok("007", "7"), tok("+4", "4"), tok("0", "0"),
       tok("99999999999999999999", "ERR", "ERR", "1e+20"), tok("4294967296", "ERR", "4294967296", "4294967296"), tok("-0.25", "ERR", "ANY", "-0.25")]
# "-0.25" read as unsigned stops at the point
B[-1]["u"] = "ERR"


def body(c):
    e = build("cmdline", ["cmdline.cpp"], "real")
    q = lambda t: "<<" + ",".join('[s |-> "%s", k |-> "%s", n |-> "%s", f |-> <<%s>>, i |-> "%s", u |-> "%s", d |-> "%s"]' %
                                  (x["s"], x["k"], x["n"], ",".join('"%s"' % f for f in x["f"]), x["i"], x["u"], x["d"]) for x in t) + ">>"
    inv = "INVARIANTS UnusedKeepDefault FlagsAreSet RestOnlyAfterSeparator OnlyGivenAreUsed Record\n"

    def gen(T, n, valid, args=()):
        # token tables are long: pass them through a module
        wd = scratch("cl")
        open(os.path.join(wd, "CLGen.tla"), "w").write("---- MODULE CLGen ----\nEXTENDS CommandLine\nTk == %s\n====\n" % q(T))
        r = tlc("CLGen", "CONSTANTS Tokens <- Tk MaxLen=%d OnlyValid=%s\nSPECIFICATION Spec\n%s" % (n, "TRUE" if valid else "FALSE", inv),
                args=args, workers=1, workdir=wd)
        hs = [json.loads(m.group(1)) for m in re.finditer(r'^<<"H", "(.*)">>$', r.out, re.M)]
        return r, [[T[j - 1] for j in h] for h in hs]
    lists = []
    r, l = gen(A, 4 if THOROUGH else 3, False)
    c.model(r, "all argument lists of up to %d of %d tokens" % (4 if THOROUGH else 3, len(A)))
    lists += l
    r, l = gen(B, 3 if THOROUGH else 2, False)
    c.model(r, "all argument lists of up to %d of %d tokens" % (3 if THOROUGH else 2, len(B)))
    lists += l
    r, l = gen(B, 9, True, args=("-simulate", "num=%d" % (1500 if THOROUGH else 150), "-depth", "10", "-seed", str(SEED)))
    if not l:
        raise CheckError("no behaviours: " + r.out[-2000:])
    lists += l
    # valid prefixes followed by anything
    for x in c.rng.sample(l, min(len(l), 1500)):
        lists.append(x + [c.rng.choice(B)])
    d = scratch("c17")
    seen, todo = set(), []
    for x in lists:
        for req in ((0, 1) if len(x) < 3 or any(t["s"] in ("-r", "--req", "-abr") for t in x) else (c.rng.randint(0, 4) // 4,)):
            k = (req, tuple(t["s"] for t in x))
            if k not in seen:
                seen.add(k)
                todo.append((req, x))
    n = JOBS
    files = []
    for k in range(n):
        f = os.path.join(d, "in%d" % k)
        open(f, "w").write("".join("%d%s\n" % (req, "".join("\t:" + t["s"] for t in x)) for req, x in todo[k::n]))
        files.append(f)
    with cf.ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda f: run([e, f], timeout=600), files))
    cases = []
    for k in range(n):
        ls = outs[k].out.splitlines()
        if len(ls) != len(todo[k::n]):
            raise CheckError("harness lost cases: " + outs[k].err[-1000:])
        for (req, x), o in zip(todo[k::n], ls):
            cases.append({"ev": x, "req": req == 1, "o": json.loads(o)})
    c.sample({"arguments": [t["s"] for t in cases[len(cases) // 2]["ev"]], "result": cases[len(cases) // 2]["o"]})
    c.cov["accepted_lists"] = sum(1 for x in cases if x["o"]["st"] == "ok")

    def corrupt(cs):
        for x in cs:
            if x["o"]["st"] == "ok" and x["o"]["used"]:
                x["o"]["used"].pop()
                return [x]
    judge(c, "CommandLineTrace", cases, corrupt=corrupt, label="argument lists")


main("C17", body)
