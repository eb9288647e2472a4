"""Sequence machines: C01, C02, C04, C05 (spec/SeqMachine.tla)."""
import json, os, subprocess
from . import core

PLAIN = ["push", "pushSelf", "pop", "ins", "insSelf", "insN", "insNSelf", "insR", "insL", "insB", "emplace", "er",
         "erR", "erR0", "res", "resV", "resVSelf", "clear", "set", "asgL", "reserve", "shrink", "copyTo", "copyNew",
         "moveTo", "moveNew", "selfAsg", "swap", "dropB"]


class Family:
    def __init__(self, name, parts, ops, kind, vals, default, variants=(0,), routes=(0,), rvals=None, lib=False):
        self.name, self.parts, self.ops, self.kind = name, parts, ops, kind
        self.vals, self.default, self.variants, self.routes = vals, default, variants, routes
        self.rvals = rvals or vals
        self.lib = lib


def ctext(op, var, x, t=(), u=()):
    return "%s %d | %s | %s | %s" % (op, var, " ".join(map(str, x)), " ".join(map(str, t)), " ".join(map(str, u)))


def event_line(e):
    return ctext(e["op"], e["v"], e["x"], e["t"], e["u"])


class Died(Exception):
    def __init__(self, cmd, done, stderr):
        self.cmd, self.done, self.stderr = cmd, done, stderr


def execute(exe, args, out, timeout):
    """Runs a harness; Died when it crashed, was stopped by a sanitizer or hung."""
    try:
        r = core.run_exe(exe, args + [out], timeout)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        rc, err = -9, "did not terminate within %d s" % timeout
    if rc == 0:
        return
    if rc == 3:
        raise core.Broken("harness usage error: %s %s: %s" % (exe, args, err[-2000:]))
    cur = ""
    if os.path.exists(out + ".cur"):
        with open(out + ".cur") as f:
            cur = f.read().strip()
    done = []
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            for l in f:
                try:
                    done.append(json.loads(l))
                except ValueError:
                    break
    raise Died(cur, done, err)


def crash_summary(err):
    keep = [l for l in err.splitlines() if "Assertion Failed" in l or "ERROR: " in l or "runtime error" in l
            or l.strip().startswith("#") or "terminate" in l or "what()" in l or "did not" in l]
    return " / ".join(l.strip()[:200] for l in keep[:8]) or err[-400:]


# ------------------------------------------------- direction A: spec -> code
def model(ck, fam, maxlen, maxlenb, maxcnt, maxrange, emit):
    r = core.tlc(ck.dir, "SeqGen", constants={
        "Vals": set(fam.vals), "Default": fam.default, "MaxLen": maxlen, "MaxLenB": maxlenb, "MaxCnt": maxcnt,
        "MaxRange": maxrange, "Ops": set(fam.ops), "Emit": emit},
        invariants=["TypeOK", "RetOK"], properties=["Around"], constraints=["Bounded"],
        action_constraints=["EmitStep"], view="View", workers=4 if not emit else 2, heap="6g")
    core.need_ok(r, "SeqMachine for " + fam.name)
    return r


def null_count(kind, s):
    return s.count(0) if kind == "bits" else s.count(-1) if kind == "nullable" else None


def expected_mismatch(fam, tr, got):
    """None, or how the event differs from the spec transition."""
    for k in ("a", "b", "r"):
        if got[k] != tr[k]:
            return "%s: the specification says %s, the implementation %s" % (k, tr[k], got[k])
    if got["dis"]:
        return "access paths disagree: %s" % got["dis"]
    if fam.kind != "plain":
        for k, n in (("a", "na"), ("b", "nb")):
            if k == "a" and not tr.get("xa", True):
                continue       # see SetElem in SeqMachine.tla
            if got[n] != -1 and got[n] != null_count(fam.kind, tr[k]):
                return "null count of %s: the specification says %d, the implementation %d" % (
                    k, null_count(fam.kind, tr[k]), got[n])
    if got["eq"] != (1 if tr["a"] == tr["b"] else 0):
        return "equality of a and b reported as %d" % got["eq"]
    return None


def replay_transitions(ck, fam, exe, transitions, combos):
    """Every transition is executed from its pre-state, built in each of several ways."""
    n = len(transitions) * len(combos)
    shards = max(1, min(core.NCPU, n // 2000 + 1))
    work = [[] for _ in range(shards)]
    i = 0
    for tr in transitions:
        for ra, rb, var in combos:
            work[i % shards].append((tr, ra, rb, var))
            i += 1

    def go(k):
        src, out = os.path.join(ck.dir, "%s-a%d.txt" % (fam.name, k)), os.path.join(ck.dir, "%s-a%d.nd" % (fam.name, k))
        with open(src, "w") as f:
            for tr, ra, rb, var in work[k]:
                f.write(ctext("new", 0, [ra, rb], tr["pa"], tr["pb"]) + "\n")
                f.write(ctext(tr["op"], var, tr["x"], tr["t"]) + "\n")
        try:
            execute(exe, ["cases", src], out, 300)
        except Died as e:
            j = min(len(e.done) // 2, len(work[k]) - 1)
            if e.cmd.startswith("new ") and j > 0:
                j -= 1          # a new case takes the previous one apart
            tr, ra, rb, var = work[k][j]
            return ("crash at '%s': %s" % (e.cmd, crash_summary(e.stderr)), tr, ra, rb, var)
        with open(out) as f:
            lines = f.readlines()
        if len(lines) != 2 * len(work[k]):
            raise core.Broken("harness wrote %d events for %d commands" % (len(lines), 2 * len(work[k])))
        for j, (tr, ra, rb, var) in enumerate(work[k]):
            e0 = json.loads(lines[2 * j])
            pre = {"a": tr["pa"], "b": tr["pb"], "r": -1}
            m = expected_mismatch(fam, pre, e0)
            if m:
                return ("construction (route %d, %d): %s" % (ra, rb, m), tr, ra, rb, var)
            m = expected_mismatch(fam, tr, json.loads(lines[2 * j + 1]))
            if m:
                return (m, tr, ra, rb, var)
        return None

    bad = [b for b in core.parallel(go, range(shards)) if b]
    ck.cases += n
    if transitions:
        tr = transitions[len(transitions) // 2]
        ck.sample({"family": fam.name, "spec_transition": tr})
    for what, tr, ra, rb, var in bad[:1]:
        cmds = [ctext("new", 0, [ra, rb], tr["pa"], tr["pb"]), ctext(tr["op"], var, tr["x"], tr["t"])]
        again = confirm_case(ck, fam, exe, tr, cmds)
        if not again:
            raise core.Broken("a rejection did not repeat: %s %s" % (what, cmds))
        ck.violation("%s: %s: %s" % (fam.name, cmds, again),
                     {"family": fam.name, "direction": "spec transition replayed on the code", "transition": tr,
                      "commands": cmds, "defs": fam.parts})


def confirm_case(ck, fam, exe, tr, cmds):
    src, out = os.path.join(ck.dir, "confirm.txt"), os.path.join(ck.dir, "confirm.nd")
    with open(src, "w") as f:
        f.write("\n".join(cmds) + "\n")
    try:
        execute(exe, ["cases", src], out, 60)
    except Died as e:
        return "crash at '%s': %s" % (e.cmd, crash_summary(e.stderr))
    with open(out) as f:
        evs = [json.loads(l) for l in f]
    return expected_mismatch(fam, {"a": tr["pa"], "b": tr["pb"], "r": -1}, evs[0]) or expected_mismatch(fam, tr, evs[1])


# ------------------------------------------------- direction B: code -> spec
def validate(ck, fam, path):
    return core.tlc(ck.dir, "SeqTrace", spec="TraceSpec", constants={
        "Vals": {0}, "Default": fam.default, "MaxLen": 1, "MaxLenB": 1, "MaxCnt": 1, "MaxRange": 1,
        "Ops": set(fam.ops), "Kind": fam.kind}, postcondition="TraceAccepted", env={"TRACE": path}, heap="2500m")


def accepted(r):
    """(True, None) or (False, index of the first rejected event)."""
    import re
    m = re.search(r'<<"ACCEPTED", (\d+), (\d+)>>', r.out)
    if not m and "The error occurred when TLC was evaluating" in r.out and r.distinct > 0 \
            and re.search(r"Attempted to|out of domain|not in the domain|does not denote", r.out):
        # what was recorded is not even of the kind the specification speaks about
        return False, r.distinct - 1
    if not m:
        raise core.Broken("trace validation did not finish:\n" + "\n".join(re.findall(r"Error:.*(?:\n.+){0,6}", r.out))[:3000])
    d, n = int(m.group(1)), int(m.group(2))
    if d == n and r.rc == 0:
        return True, None
    if d < n:
        return False, d
    raise core.Broken("trace validation ended oddly:\n" + r.out[-3000:])


def random_traces(ck, fam, exe, seed, sessions, steps, maxlen):
    """Returns a violation (what, events) or None; counts what was checked."""
    out = os.path.join(ck.dir, "%s-%d.nd" % (fam.name, seed))
    args = ["random", seed, sessions, steps, maxlen, ",".join(map(str, fam.rvals)), ",".join(fam.ops)]
    died = None
    try:
        execute(exe, args, out, 400)
    except Died as e:
        died = e
        with open(out, "w") as f:
            for ev in e.done:
                f.write(json.dumps(ev) + "\n")
    with open(out) as f:
        lines = f.readlines()
    bad = None
    if lines:
        r = validate(ck, fam, out)
        ok, at = accepted(r)
        ck.states += r.distinct
        ck.transitions += r.generated
        ck.events += len(lines)
        ck.traces += sum(1 for l in lines if l.startswith('{"op":"new"'))
        if not ok:
            bad = (at, None)
    if bad is None and died is not None:
        bad = (len(lines), died)
    if bad is None:
        return None
    at, died = bad
    evs = [json.loads(l) for l in lines[:at + 1]]
    start = max([i for i, e in enumerate(evs) if e["op"] == "new"], default=0)
    if died is not None and died.cmd.startswith("new ") and evs:
        return [event_line(e) for e in evs[start:]] + [died.cmd]     # it takes the previous session apart
    cmds = [event_line(e) for e in evs[start:]]
    if died is not None:
        cmds = cmds + [died.cmd] if not died.cmd.startswith("new ") else [died.cmd]
    return cmds


def confirm_session(ck, fam, exe, cmds):
    """Re-runs a session and validates it again; what is rejected, or None."""
    src, out = os.path.join(ck.dir, "session.txt"), os.path.join(ck.dir, "session.nd")
    with open(src, "w") as f:
        f.write("\n".join(cmds) + "\n")
    try:
        execute(exe, ["cases", src], out, 60)
    except Died as e:
        return "crash at '%s' after %s: %s" % (e.cmd, json.dumps(e.done[-1])[:400] if e.done else "nothing",
                                               crash_summary(e.stderr))
    ok, at = accepted(validate(ck, fam, out))
    if ok:
        return None
    with open(out) as f:
        evs = [json.loads(l) for l in f]
    prev = {"a": evs[at - 1]["a"], "b": evs[at - 1]["b"]} if at else {}
    return "no step of the specification explains event %s after %s" % (json.dumps(evs[at]), json.dumps(prev))


def binding_selftest(ck, fam, exe):
    """A recorded trace with one corrupted field has to be rejected, otherwise the check is blind."""
    out = os.path.join(ck.dir, "self-%s.nd" % fam.name)
    try:
        execute(exe, ["random", 12345, 6, 25, 12, ",".join(map(str, fam.rvals)), ",".join(fam.ops)], out, 60)
    except Died:
        return
    with open(out) as f:
        evs = [json.loads(l) for l in f]
    ok, _ = accepted(validate(ck, fam, out))
    if not ok:
        return     # a real rejection; the random traces report it
    for field in ("a", "r", "na", "eq"):
        idx = len(evs) // 2
        while idx < len(evs) and (field == "na" and evs[idx]["na"] == -1):
            idx += 1
        if idx >= len(evs) or (field == "na" and fam.kind == "plain"):
            continue
        bad = [dict(e) for e in evs]
        v = bad[idx][field]
        bad[idx][field] = (v + [7] if isinstance(v, list) else v + 1)
        p = os.path.join(ck.dir, "self-bad-%s.nd" % fam.name)
        with open(p, "w") as f:
            for e in bad:
                f.write(json.dumps(e) + "\n")
        ok, at = accepted(validate(ck, fam, p))
        if ok or at > idx:
            raise core.Broken("the specification accepts a corrupted trace (field %s)" % field)


def check(ck, families, cfg):
    """cfg: model bounds and random volume."""
    targets = {f.name: f.parts + [("seq_main.cpp", [])] for f in families}
    exes = core.compile_all(targets, any(f.lib for f in families))
    ck.log("harnesses built")
    # models: one per distinct signature
    sig = {}
    for f in families:
        key = (tuple(f.ops), tuple(f.vals), f.default)
        sig.setdefault(key, []).append(f)
    for fs in sig.values():
        m = cfg["model"]
        r = model(ck, fs[0], m["maxlen"], m["maxlenb"], m["maxcnt"], m["maxrange"], True)
        ck.model(r, "SeqMachine/" + fs[0].name)
        trs = list(r.prints())
        seen = {t["op"] for t in trs}
        missing = set(fs[0].ops) - seen - {"erR0"}
        if missing:
            raise core.Broken("actions never taken in the model: %s" % missing)
        for f in fs:
            combos = [(ra, rb, v) for i, ra in enumerate(f.routes) for rb in (f.routes[(i + 1) % len(f.routes)],)
                      for v in (f.variants if i == 0 else (f.variants[i % len(f.variants)],))]
            replay_transitions(ck, f, exes[f.name], trs, combos)
            if ck.violations:
                return
        del trs
    ck.log("%d spec transitions replayed" % ck.cases)
    core.parallel(lambda f: binding_selftest(ck, f, exes[f.name]), families[:4])
    jobs = [(f, ck.seed * 1000 + k) for k in range(cfg["random"]["chunks"]) for f in families]

    def go(j):
        f, seed = j
        if ck.violations or ck.left(cfg["budget"]) < 0:
            return None
        maxlen = cfg["random"]["maxlens"][seed % len(cfg["random"]["maxlens"])]
        cmds = random_traces(ck, f, exes[f.name], seed, cfg["random"]["sessions"], cfg["random"]["steps"], maxlen)
        return (f, cmds) if cmds else None

    for bad in core.parallel(go, jobs):
        if bad and not ck.violations:
            f, cmds = bad
            what = confirm_session(ck, f, exes[f.name], cmds)
            if not what:
                raise core.Broken("a rejection did not repeat: %s" % cmds)
            ck.violation("%s: %s" % (f.name, what),
                         {"family": f.name, "direction": "recorded trace checked against the specification",
                          "commands": cmds, "defs": f.parts})
    ck.sample({"families": [f.name for f in families], "ops": families[0].ops})
