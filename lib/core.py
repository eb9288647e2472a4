"""Building harnesses, running TLC, recording evidence and violations."""
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
CXX = ["g++", "-std=c++20", "-O1", "-g1", "-w",
       "-fsanitize=address,undefined", "-fno-sanitize=vptr,null,pointer-overflow", "-fno-sanitize-recover=all",
       "-DSPARROW_USE_DATE_POLYFILL", "-DSPARROW_STATIC_LIB", "-I%s/include" % REPO, "-I" + HARNESS]
LINK = ["-ldate-tz"]
LIBSRC = ["array", "array_factory", "array_helper", "arrow_array_schema_proxy", "dummy32bit", "list_value",
          "record_batch", "run_encoded_array", "struct_value", "arrow_interface/arrow_array", "arrow_interface/arrow_schema"]


class Broken(Exception):
    """The machinery itself failed: neither verdict can be given."""


def scratch(name):
    d = os.path.join(BUILD, "run-%s-%d" % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    atexit.register(shutil.rmtree, d, True)
    return d


def lib_sources():
    """Every translation unit of the library, as the build files glob them or list them."""
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
    return sorted(out)


def _tree_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), HARNESS):
        for root, dirs, files in sorted(os.walk(top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".hpp", ".h")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h


def compile_all(targets, needs_lib):
    """targets: {exe: [(source, [defs]), ...]} -> {exe: path}.  Objects are cached by content."""
    os.makedirs(CACHE, exist_ok=True)
    tree = _tree_hash()
    jobs = {}

    def obj(src, defs):
        h = tree.copy()
        h.update(repr((src, defs, CXX)).encode())
        with open(src, "rb") as f:
            h.update(f.read())
        o = os.path.join(CACHE, h.hexdigest()[:24] + ".o")
        jobs[o] = (src, defs)
        return o

    libobjs = [obj(s, []) for s in lib_sources()] if needs_lib else []
    plan = {exe: [obj(os.path.join(HARNESS, s), d) for s, d in parts] + libobjs for exe, parts in targets.items()}

    def run(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken("command failed: %s\n%s" % (" ".join(cmd), (r.stderr or r.stdout)[-6000:]))

    def one(o):
        if not os.path.exists(o):
            src, defs = jobs[o]
            tmp = "%s.%d.tmp" % (o, os.getpid())
            run(CXX + defs + ["-c", src, "-o", tmp])
            os.replace(tmp, o)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        order = sorted(jobs, key=lambda o: 0 if HARNESS in jobs[o][0] else 1)
        list(ex.map(one, order))

        def link(item):
            exe, objs = item
            h = hashlib.sha256(repr(objs).encode()).hexdigest()[:20]
            p = os.path.join(CACHE, "%s-%s" % (exe, h))
            if not os.path.exists(p):
                tmp = "%s.%d.tmp" % (p, os.getpid())
                run(CXX + objs + LINK + ["-o", tmp])
                os.replace(tmp, p)
            return exe, p
        return dict(ex.map(link, plan.items()))


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:halt_on_error=1:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=0",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}


def run_exe(exe, args, timeout=600):
    env = dict(os.environ, **ASAN_ENV)
    return subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, errors="replace",
                          env=env, timeout=timeout)


# ----------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = rc == 0
        self.violated = "is violated" in out or "was violated" in out or "Temporal properties were violated" in out

    def prints(self):
        """Values printed with PrintT(ToJson(..)), one per line."""
        for line in self.out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                yield json.loads(json.loads(line))


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla_value(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    raise Broken("no TLA value for %r" % (v,))


def tlc(dirname, module, spec="Spec", constants=None, invariants=(), properties=(), constraints=(),
        action_constraints=(), view=None, postcondition=None, deadlock=False, workers=1, env=None, heap="3g",
        timeout=840, simulate=None, seed=None, depth=None):
    """Runs TLC in its own directory, which holds the configuration and TLC's state."""
    tag = "%s-%s" % (module, hashlib.sha1(os.urandom(8)).hexdigest()[:10])
    d = os.path.join(dirname, tag)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    lines = ["SPECIFICATION " + spec]
    wrap = []
    for k, v in (constants or {}).items():
        # operators defined in a wrapper module can be any expression; sets and sequences need that
        wrap.append("C_%s == %s" % (k, tla_value(v)))
        lines.append("CONSTANT %s <- C_%s" % (k, k))
    lines += ["INVARIANT " + i for i in invariants] + ["PROPERTY " + p for p in properties]
    lines += ["CONSTRAINT " + c for c in constraints] + ["ACTION_CONSTRAINT " + c for c in action_constraints]
    if view:
        lines.append("VIEW " + view)
    if postcondition:
        lines.append("POSTCONDITION " + postcondition)
    lines.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    with open(os.path.join(d, "MC.cfg"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(d, "MC.tla"), "w") as f:
        f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n====\n" % (module, "\n".join(wrap)))
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-config", "MC.cfg", "-workers",
           str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", simulate]
    if depth is not None:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd.append("MC.tla")
    t0 = time.time()
    with open(os.path.join(d, "out"), "w") as fo:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})),
                               timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    with open(os.path.join(d, "out"), errors="replace") as f:
        r = TlcResult(rc, f.read())
    r.wall = time.time() - t0
    shutil.rmtree(d, ignore_errors=True)
    return r


def need_ok(r, what):
    if not r.ok:
        raise Broken("TLC failed on %s (rc %d)\n%s" % (what, r.rc, r.out[-4000:]))
    return r


# ------------------------------------------------------------ check context
class Check:
    def __init__(self, pid, tier, technique="", level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = scratch(pid)
        self.states = self.transitions = 0
        self.traces = self.events = self.cases = 0
        self.samples, self.assumptions, self.parts = [], [], []
        self.violations, self.findings = [], []
        self.extra = {}
        self.known = load_known(pid)

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, msg), flush=True)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def model(self, r, what):
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"what": what, "distinct_states": r.distinct, "transitions": r.generated,
                           "wall_s": round(r.wall, 1)})
        self.log("%s: %d states, %d transitions (%.1fs)" % (what, r.distinct, r.generated, r.wall))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:600])

    def violation(self, what, replay):
        os.makedirs(REPLAYS, exist_ok=True)
        body = dict(replay, property=self.pid, what=what)
        name = "%s-%s.json" % (self.pid, hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(REPLAYS, name)
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        self.violations.append((what, path))
        self.log("violation: %s" % what[:1500])

    def finish(self):
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces,
                                "spec_transitions_replayed": self.cases, "trace_events_checked": self.events,
                                "parts": self.parts, "samples": self.samples or ["none"]}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        self.log("done: %d states, %d transitions, %d spec transitions replayed, %d traces (%d events) validated, %d violations"
                 % (self.states, self.transitions, self.cases, self.traces, self.events, len(self.violations)))
        return 1 if self.violations else 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    out.append(m.group(2))
    return out


def parallel(fn, items, n=NCPU):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))
