"""Shared machinery of the checks: building harnesses from /repo's working tree,
running TLC, recording violations and writing evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf, random, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CACHE = os.path.join(BUILD, "cache")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 8)
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
TLC_CP = "/opt/veriftools/tla/tla2tools.jar"

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT", "1")
os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
os.environ.setdefault("OMPI_MCA_btl", "self,vader")
os.environ.setdefault("OMPI_MCA_btl_vader_single_copy_mechanism", "none")
os.environ.setdefault("OMPI_MCA_rmaps_base_oversubscribe", "1")
os.environ.setdefault("OMPI_MCA_hwloc_base_binding_policy", "none")
os.environ.setdefault("OMPI_MCA_mpi_yield_when_idle", "1")
os.environ.setdefault("OMPI_MCA_plm", "isolated")
os.environ.setdefault("OMPI_MCA_shmem", "posix")


class CheckError(Exception):
    """The check itself could not run (never reported as a violation)."""


class Violation(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------- build

def petsc(kind):
    return "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-" + kind


MPI_INC = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
           "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]


def variant_flags(variant):
    base = ["-std=gnu++14", "-w", "-g0", "-fPIC", "-DHPGEM_FORCE_ASSERTS",
            "-DHPGEM_LOGLEVEL=Log::DEFAULT", "-DHPGEM_USE_MPI"]
    if variant.startswith("real"):
        base += ["-O0", "-DHPGEM_USE_ANY_PETSC", "-DHPGEM_USE_PETSC",
                 "-isystem", petsc("real") + "/include"]
    elif variant.startswith("complex"):
        base += ["-O0", "-DHPGEM_USE_ANY_PETSC", "-DHPGEM_USE_COMPLEX_PETSC",
                 "-isystem", petsc("complex") + "/include"]
    elif variant.startswith("plain"):   # MPI, no PETSc
        base += ["-O0"]
    elif variant.startswith("asan"):
        base += ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    else:
        raise CheckError("unknown variant " + variant)
    return base + MPI_INC


def link_flags(variant):
    l = ["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi_cxx", "-lmpi"]
    if variant.startswith("real"):
        l = [petsc("real") + "/lib/libpetsc_real.so", "-Wl,-rpath," + petsc("real") + "/lib"] + l
    if variant.startswith("complex"):
        l = [petsc("complex") + "/lib/libpetsc_complex.so", "-Wl,-rpath," + petsc("complex") + "/lib"] + l
    if variant.startswith("asan"):
        l = ["-fsanitize=address,undefined"] + l
    return l + ["-llapack", "-lblas", "-ldl", "-lpthread"]


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()


_file_hash = {}


def fhash(path):
    v = _file_hash.get(path)
    if v is None:
        try:
            with open(path, "rb") as f:
                v = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            v = "missing"
        _file_hash[path] = v
    return v


def compile_one(src, flags):
    """Compile src, keyed by the contents of everything it includes (no mtimes)."""
    key0 = _sha(src, " ".join(flags))
    meta = os.path.join(CACHE, key0 + ".json")
    if os.path.exists(meta):
        try:
            m = json.load(open(meta))
            key = _sha(key0, *[d + fhash(d) for d in m["deps"]])
            obj = os.path.join(CACHE, key + ".o")
            if os.path.exists(obj):
                return obj, None
        except Exception:
            pass
    tmp = os.path.join(CACHE, key0 + ".%d.tmp" % os.getpid())
    cmd = ["g++", "-c", src, "-o", tmp + ".o", "-MD", "-MF", tmp + ".d"] + flags
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    deps = sorted({os.path.realpath(d) if not d.startswith("/") else d for d in deps
                   if not d.startswith("/usr/")})
    key = _sha(key0, *[d + fhash(d) for d in deps])
    obj = os.path.join(CACHE, key + ".o")
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    with open(meta + ".%d" % os.getpid(), "w") as f:
        json.dump({"deps": deps}, f)
    os.replace(meta + ".%d" % os.getpid(), meta)
    return obj, None


KERNEL_SKIP = {"Geometry/Mappings/MappingReferenceToPhysical.cpp"}  # not part of the CMake build


def kernel_sources():
    out = []
    k = os.path.join(REPO, "kernel")
    for d, _, fs in os.walk(k):
        for f in fs:
            if f.endswith(".cpp"):
                p = os.path.join(d, f)
                if os.path.relpath(p, k) not in KERNEL_SKIP:
                    out.append(p)
    return sorted(out)


def build(name, sources, variant="plain", kernel=True, extra_inc=(), extra_flags=(), extra_link=()):
    """Build a harness executable; returns its path. sources: absolute paths or
    paths relative to harness/."""
    os.makedirs(CACHE, exist_ok=True)
    inc = []
    for i in ["kernel", "kernel/Base", "kernel/Geometry", "kernel/Utilities"]:
        inc += ["-I" + os.path.join(REPO, i)]
    flags = variant_flags(variant) + inc
    hflags = flags + ["-I" + HARNESS] + ["-I" + i for i in extra_inc] + list(extra_flags)
    jobs = []
    if kernel:
        jobs += [(s, flags, True) for s in kernel_sources()]
        gen = os.path.join(BUILD, "hpgem-cmake.cpp")
        src = open(os.path.join(REPO, "kernel/hpgem-cmake.cpp.in")).read()
        src = re.sub(r"@[A-Za-z0-9_]+@", "", src)
        if not os.path.exists(gen) or open(gen).read() != src:
            with open(gen, "w") as f:
                f.write(src)
        jobs.append((gen, flags, True))
    for s in sources:
        if not s.startswith("/"):
            s = os.path.join(HARNESS, s)
        jobs.append((s, hflags, False))
    objs, errs = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (s, _, k), (o, e) in zip(jobs, ex.map(lambda j: compile_one(j[0], j[1]), jobs)):
            if o is None:
                errs.append((s, k, e))
            else:
                objs.append((o, k))
    if errs:
        for s, k, e in errs:
            log("compile failed:", s, "\n", e[-3000:])
        raise CheckError("compilation of %s failed" % errs[0][0])
    key = _sha(name, variant, " ".join(o for o, _ in objs), " ".join(extra_link))
    exe = os.path.join(BUILD, "bin", name + "-" + key[:16])
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        for old in os.listdir(os.path.dirname(exe)):
            if old.startswith(name + "-") and len(old) == len(name) + 17:
                try:
                    os.unlink(os.path.join(os.path.dirname(exe), old))
                except OSError:
                    pass
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = ["g++", "-o", tmp] + [o for o, k in objs if not k]
        lib = None
        ko = [o for o, k in objs if k]
        if ko:
            lib = tmp + ".a"
            if os.path.exists(lib):
                os.unlink(lib)
            subprocess.run(["ar", "cr", lib] + ko, check=True)
            cmd += ["-Wl,--start-group", lib, "-Wl,--end-group"]
        cmd += list(extra_link) + link_flags(variant)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if lib:
            os.unlink(lib)
        if r.returncode != 0:
            log(r.stdout[-4000:])
            raise CheckError("linking %s failed" % name)
        os.replace(tmp, exe)
    return exe


# ----------------------------------------------------------------------- run

class RunResult:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out


def run(cmd, timeout=300, cwd=None, env=None, stdin=None):
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, er = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
        return RunResult(p.returncode, o.decode(errors="replace"), er.decode(errors="replace"), False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGTERM)      # lets mpirun end its processes
            time.sleep(1)
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
        return RunResult(-9, o.decode(errors="replace"), er.decode(errors="replace"), True)


def mpirun(n, cmd, **kw):
    return run(["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(n)] + list(cmd), **kw)


# ----------------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self, rc, out, states, distinct, ok):
        self.rc, self.out, self.states, self.distinct, self.ok = rc, out, states, distinct, ok


def tlc(module, cfg=None, env=None, workers=None, timeout=800, args=(), heap="6g", deadlock=False, workdir=None):
    """Run TLC on spec/<module>.tla. ok means no error of any kind."""
    wd = workdir or scratch("tlc-" + module)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), wd)
    cfgsrc = cfg if cfg else module + ".cfg"
    if "\n" in cfgsrc or not cfgsrc.endswith(".cfg"):
        open(os.path.join(wd, "_.cfg"), "w").write(cfgsrc)
    else:
        shutil.copy(os.path.join(SPEC, cfgsrc), os.path.join(wd, "_.cfg"))
    cp = tlc_classpath()
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + wd, "-cp", cp, "tlc2.TLC",
           "-config", "_.cfg", "-metadir", os.path.join(wd, "states"), "-noGenerateSpecTE",
           "-workers", str(workers or JOBS)]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(args) + [module + ".tla"]
    r = run(cmd, timeout=timeout, cwd=wd, env=env)
    out = "\n".join(l for l in (r.out + r.err).splitlines() if not l.startswith(("Parsing file", "Semantic processing", "Linting of")))
    if r.timed_out:
        raise CheckError("TLC timed out on " + module)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    states, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    ok = "Model checking completed. No error has been found." in out or \
         ("-simulate" in args and "Error:" not in out)
    return TLCResult(r.rc, out, states, distinct, ok and r.rc == 0)


_cp = None


def tlc_classpath():
    global _cp
    if _cp is None:
        _cp = TLC_CP
        w = shutil.which("tlc")
        if w:
            try:
                t = open(w).read()
                m = re.search(r"-cp\s+[\"']?([^\s\"']+)", t)
                if m and "$" not in m.group(1):
                    _cp = m.group(1)
                else:
                    jars = []
                    for d, _, fs in os.walk("/opt/veriftools/tla"):
                        jars += [os.path.join(d, f) for f in fs if f.endswith(".jar")]
                    _cp = ":".join([TLC_CP] + sorted(j for j in jars if j != TLC_CP))
            except Exception:
                pass
    return _cp


_scratch = []


def scratch(tag):
    base = os.path.join(BUILD, "scratch", str(os.getpid()))
    os.makedirs(base, exist_ok=True)
    i = 0
    while True:
        d = os.path.join(base, "%s-%d" % (tag, i))
        try:
            os.makedirs(d)
            return d
        except FileExistsError:
            i += 1


def cleanup():
    shutil.rmtree(os.path.join(BUILD, "scratch", str(os.getpid())), ignore_errors=True)


# --------------------------------------------------------------------- check

def known_findings():
    """Lines of known_findings.jsonl: {"property":..., "key":..., "what":...}"""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("fixed:") and not l.startswith("#"):
                out.append(json.loads(l))
    return out


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))
        self.known = [k for k in known_findings() if k["property"] == pid]
        self.known_hit = set()

    def model(self, res, what):
        """Record a model-checking run; a violated invariant of the spec itself is a check error."""
        if not res.ok:
            log(res.out[-5000:])
            raise CheckError("specification model check failed: " + what)
        self.cov["states"] += res.distinct
        self.cov["transitions"] += res.states
        self.cov.setdefault("models", []).append({"model": what, "distinct": res.distinct, "generated": res.states})

    def sample(self, s):
        if len(self.cov["samples"]) < 5:
            self.cov["samples"].append(s)

    def violation(self, what, detail, key=None):
        """key identifies the specific failing input for the known findings file."""
        for k in self.known:
            if key is not None and k.get("key") == key:
                if key not in self.known_hit:
                    self.known_hit.add(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        self.violations.append((what, detail))

    def finish(self):
        rc = 0
        if self.violations:
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.pid + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": SEED, "tier": TIER,
                           "violations": [{"what": w, "detail": d} for w, d in self.violations[:20]]}, f, indent=1, default=str)
            for w, _ in self.violations[:5]:
                log("violated:", w)
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            rc = 1
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        return rc


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        try:
            fn(c)
        except CheckError as e:
            log("CHECK ERROR (%s): %s" % (pid, e))
            c.finish()
            cleanup()
            sys.exit(2 if not c.violations else 1)
        rc = c.finish()
    finally:
        cleanup()
    log("%s: %s in %.1fs" % (pid, "ok" if rc == 0 else "VIOLATION", time.time() - c.t0))
    sys.exit(rc)


# ------------------------------------------------------- trace validation

def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def validate_trace(module, trace_path, cfg=None, env=None, timeout=800, workers=1, heap="6g"):
    """Validate a recorded NDJSON trace with spec/<module>.tla. Convention: the module has a
    variable l (1-based position) and POSTCONDITION/invariants; acceptance = TLC reports no error.
    Returns (accepted, index_of_first_unexplained_event or None, result)."""
    e = {"TRACE": trace_path}
    if env:
        e.update(env)
    r = tlc(module, cfg=cfg, env=e, workers=workers, timeout=timeout, heap=heap)
    if r.ok:
        return True, None, r
    # Distinguish a rejected trace from a broken specification.
    m = re.search(r"TRACE-REJECTED at (\d+)", r.out)
    if m:
        return False, int(m.group(1)), r
    log(r.out[-6000:])
    raise CheckError("TLC failed on trace spec %s" % module)


def validate_cases(check, module, cases, cfg=None, env=None, shards=None, timeout=800, heap="8g", label=None):
    """Validate independent recorded cases (one JSON object per case) against spec/<module>.tla.
    The module steps through Cases[c].ev[p] with the specification's own actions and has the
    invariant TraceOK. Returns None if all accepted, else (case_index0, event_index0, tlc_output)."""
    d = scratch("tr-" + module)
    path = os.path.join(d, "trace.ndjson")
    write_ndjson(path, cases)
    k = min(shards or JOBS, max(1, len(cases)))
    e = {"TRACE": path, "SHARDS": str(k)}
    if env:
        e.update(env)
    r = tlc(module, cfg=cfg or "SPECIFICATION TSpec\nINVARIANT TraceOK\n", env=e, workers=k, timeout=timeout, heap=heap)
    out = r.out
    res = None
    if not r.ok:
        if "Parsing or semantic analysis failed" in out or "OutOfMemory" in out or "java.lang" in out and "StackOverflow" in out \
                or "Computing initial states" not in out:
            log(out[-6000:])
            raise CheckError("TLC failed on " + module)
        cs = re.findall(r"^/\\ c = (\d+)", out, re.M)
        ps = re.findall(r"^/\\ p = (\d+)", out, re.M)
        if not cs:
            cs = re.findall(r"^c = (\d+)", out, re.M)
        if "Invariant TraceOK is violated" not in out and "Error: " in out and "evaluat" not in out.lower() and "attempted" not in out.lower():
            log(out[-6000:])
            raise CheckError("TLC failed on " + module)
        ci = int(cs[-1]) - 1 if cs else -1
        pi = int(ps[-1]) - 1 if ps else -1
        res = (ci, pi, out)
    if check is not None and res is None:
        check.cov["states"] += r.distinct
        check.cov["transitions"] += r.states
        check.cov["traces_validated_against_impl"] += len(cases)
        check.cov.setdefault("trace_runs", []).append({"spec": module, "what": label or module, "traces": len(cases),
                                                       "events": sum(len(x.get("ev", [1])) for x in cases)})
    shutil.rmtree(d, ignore_errors=True)
    return res


def judge(check, module, cases, corrupt=None, label=None, keyfn=None, **kw):
    """Validate, report violations, and (binding self test) make sure a corrupted copy is rejected.
    Rejected cases are reported and removed one by one so that later ones are judged too."""
    todo = list(cases)
    n = 0
    while todo:
        res = validate_cases(check, module, todo, label=label, **kw)
        if res is None:
            break
        ci, pi, out = res
        bad = todo[ci] if 0 <= ci < len(todo) else None
        msg = "%s: recorded behaviour rejected by %s at case %d event %d" % (label or module, module, ci, pi)
        key = keyfn(bad, pi) if (keyfn and bad) else None
        before = len(check.violations)
        check.violation(msg, {"case": bad, "event": pi, "tlc": out[-4000:]}, key=key)
        n += 1
        if bad is None or len(check.violations) > before or n > 12:
            break
        todo.pop(ci)
    if corrupt and todo and not check.violations:
        bad = corrupt(json.loads(json.dumps(todo)))
        if bad is not None:
            res = validate_cases(None, module, bad if isinstance(bad, list) else [bad], **kw)
            if res is None:
                raise CheckError("binding self test failed: corrupted trace accepted by " + module)
            check.cov["corrupted_traces_rejected"] = check.cov.get("corrupted_traces_rejected", 0) + 1


def gen_histories(module, cfg, args=(), workers=1, timeout=600, env=None, heap="6g"):
    """Let TLC enumerate (or, with -simulate, sample) behaviours of the specification; the module prints
    each one as PrintT(<<"H", ToJson(..)>>). Returns (list of parsed objects, TLC result)."""
    r = tlc(module, cfg=cfg, args=args, workers=workers, timeout=timeout, env=env, heap=heap)
    hs = []
    for m in re.finditer(r'^<<"H", "(.*)">>$', r.out, re.M):
        s = m.group(1)
        if '\\"' in s:
            s = s.replace('\\"', '"').replace("\\\\", "\\")
        hs.append(json.loads(s))
    return hs, r
