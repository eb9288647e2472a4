"""Small machines, driven by TLC in both directions.

Every transition of the specification (breadth-first), and long behaviours of it (TLC's
simulation), give commands; the harness executes them on the real code and records what it
shows; the trace specification accepts or rejects the recording."""
import json, os, re, shutil
from . import core, seq


class Machine:
    def __init__(self, module, exe, constants, variants, invariants=(), properties=(), sim_constants=None, constraints=(), trace_constants=None):
        self.module, self.exe, self.constants, self.variants = module, exe, constants, variants
        self.invariants, self.properties, self.constraints = invariants, properties, constraints
        self.sim_constants = sim_constants or constants
        self.trace_constants = trace_constants or self.sim_constants


def transitions(ck, m):
    r = core.tlc(ck.dir, m.module + "Gen", constants=dict(m.constants, Emit=True), invariants=m.invariants,
                 properties=m.properties, constraints=m.constraints, action_constraints=["EmitStep"], view="View",
                 workers=1 if m.properties else 2, heap="6g")
    core.need_ok(r, m.module)
    ck.model(r, m.module)
    seen, out = set(), []
    for t in r.prints():
        key = json.dumps(t, sort_keys=True)
        if key not in seen:
            seen.add(key)
            out.append(t)
    return out


EV = re.compile(r'/\\ ev = \[(.*?)\](?=\s*(?:/\\|\n\n|\Z|STATE))', re.S)


def tla(text):
    """A TLA+ value made of integers, strings, sequences and records."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(text) and text[pos].isspace():
            pos += 1

    def val():
        nonlocal pos
        ws()
        if text.startswith("<<", pos):
            pos += 2
            out = []
            ws()
            while not text.startswith(">>", pos):
                out.append(val())
                ws()
                if text[pos] == ",":
                    pos += 1
                ws()
            pos += 2
            return out
        if text[pos] == "[":
            pos += 1
            out = {}
            ws()
            while text[pos] != "]":
                m = re.compile(r"\s*(\w+)\s*\|->").match(text, pos)
                pos = m.end()
                out[m.group(1)] = val()
                ws()
                if text[pos] == ",":
                    pos += 1
                ws()
            pos += 1
            return out
        if text[pos] == '"':
            e = text.index('"', pos + 1)
            v = text[pos + 1:e]
            pos = e + 1
            return v
        m = re.compile(r"-?\d+|TRUE|FALSE").match(text, pos)
        pos = m.end()
        return {"TRUE": True, "FALSE": False}.get(m.group(0)) if m.group(0) in ("TRUE", "FALSE") else int(m.group(0))
    return val()


def behaviours(ck, m, num, depth, seed):
    """Commands of random behaviours of the specification."""
    d = os.path.join(ck.dir, "sim-%s-%d" % (m.module, seed))
    os.makedirs(d)
    r = core.tlc(ck.dir, m.module + "Gen", constants=dict(m.sim_constants, Emit=False), constraints=m.constraints,
                 simulate="file=%s/t,num=%d" % (d, num), depth=depth, seed=seed, workers=1)
    if r.violated or "Error:" in r.out:
        raise core.Broken("simulation of %s failed:\n%s" % (m.module, r.out[-3000:]))
    out = []
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f)) as fh:
            body = fh.read()
        evs = []
        for part in body.split("STATE_")[1:]:
            i = part.find("/\\ ev = ")
            if i >= 0:
                evs.append(tla(part[i + 8:]))
        out.append([(e["op"], e["x"]) for e in evs[1:]])
    shutil.rmtree(d, ignore_errors=True)
    ck.transitions += sum(map(len, out))
    return out


def execute(ck, m, variant, sessions, tag):
    """sessions: lists of (op, var, x)."""
    src, out = os.path.join(ck.dir, tag + ".txt"), os.path.join(ck.dir, tag + ".nd")
    with open(src, "w") as f:
        for s in sessions:
            for op, var, x in s:
                f.write(seq.ctext(op, var, x) + "\n")
    died, evs = None, []
    try:
        seq.execute(m.exe, ["run", variant, src], out, 300)
        with open(out) as f:
            evs = [l.rstrip("\n") for l in f]
    except seq.Died as e:
        died, evs = e, [json.dumps(x) for x in e.done]
    if not died and len(evs) != sum(map(len, sessions)):
        raise core.Broken("%d events for %d commands" % (len(evs), sum(map(len, sessions))))
    for p in (src, out):
        if os.path.exists(p):
            os.unlink(p)
    return evs, died


def validate(ck, m, evs, tag, what="all"):
    p = os.path.join(ck.dir, tag + "-trace.nd")
    with open(p, "w") as f:
        f.write("\n".join(evs) + "\n")
    r = core.tlc(ck.dir, m.module + "Trace", spec="TraceSpec", constants=m.trace_constants, postcondition="TraceAccepted", env={"TRACE": p, "CHECK": what})
    os.unlink(p)
    ok, at = seq.accepted(r)
    return r, ok, at


def judge(ck, m, variant, sessions, tag, count=True):
    """None or (session, what)."""
    evs, died = execute(ck, m, variant, sessions, tag)
    at = None
    if evs:
        r, ok, at = validate(ck, m, evs, tag)
        if count:
            ck.states += r.distinct
            ck.transitions += r.generated
            ck.events += len(evs)
        at = None if ok else at
    if at is None and died is None:
        if count:
            ck.traces += len(sessions)
        return None
    i = at if at is not None else len(evs)
    k = i
    for j, s in enumerate(sessions):
        if k < len(s):
            # loading a state takes the previous one apart
            bad = (sessions[j - 1] if k == 0 and j > 0 else []) + s[:k + 1]
            break
        k -= len(s)
    else:
        bad = sessions[-1]
    if at is not None:
        return bad, "no step of %s explains %s" % (m.module, evs[at][:1500])
    return bad, "crash at '%s': %s" % (died.cmd[:300], seq.crash_summary(died.stderr))


def selftest(ck, m, variant, sessions, corrupt):
    evs, died = execute(ck, m, variant, sessions, "self")
    if died:
        return
    _, ok, _ = validate(ck, m, evs, "self")
    if not ok:
        return

    def one(item):
        name, fn = item
        bad = [json.loads(e) for e in evs]
        for i in range(len(bad) // 2, len(bad)):
            if fn(bad[i]):
                break
        else:
            return
        _, ok2, at = validate(ck, m, [json.dumps(e) for e in bad], "self-" + name)
        if ok2 or at > i:
            raise core.Broken("%s accepts a corrupted trace (%s)" % (m.module, name))
        ck.extra.setdefault("corruptions_rejected", []).append(m.module + ":" + name)
    core.parallel(one, list(corrupt.items()))


def shrink(ck, m, variant, s, budget=40):
    """Leaves out commands that are not needed (the first one loads a state)."""
    i = 1
    while i < len(s) - 1 and budget > 0:
        t = s[:i] + s[i + 1:]
        budget -= 1
        b = judge(ck, m, variant, [t], "shrink", False)
        # every command has to be one the specification allows there
        steps = [json.dumps({"op": op, "x": x}) for op, _, x in t]
        if b and len(b[0]) == len(t) and validate(ck, m, steps, "shrink", "steps")[1]:
            s = t
        else:
            i += 1
    return s


def check(ck, m, corrupt, initial, sim=(40, 60, 4), budget=300, chunk=9000, spread=False):
    """initial: arguments of the load command a behaviour starts with.
    spread: each transition is executed by one of the variants only."""
    if ck.violations:
        return
    trs = transitions(ck, m)
    ck.cases += len(trs) * (1 if spread else len(m.variants))
    ck.sample({"module": m.module, "transition": trs[len(trs) // 2] if trs else None})
    short = [[("load", 0, t["pre"]), (t["op"], (k * 7 + k // 11) % 12, t["x"])] for k, t in enumerate(trs)]
    num, depth, runs = sim
    long = []
    for b in core.parallel(lambda k: behaviours(ck, m, num, depth, ck.seed * 1000 + k), range(runs)):
        for s in b:
            long.append([("load", 0, initial)] + [(op, (ck.seed + 5 * i + len(long)) % 12, x) for i, (op, x) in enumerate(s)])
    ck.log("%s: %d transitions, %d behaviours of up to %d steps" % (m.module, len(trs), len(long), depth))
    if long:
        selftest(ck, m, m.variants[0], long[:5], corrupt)
    jobs = []
    for vi, v in enumerate(m.variants):
        # every variant executes everything; the way a call is written varies
        mine = [[(op, (var + 5 * vi + 1) % 12, x) for op, var, x in s]
                for k, s in enumerate(short) if not spread or (k + k // len(m.variants)) % len(m.variants) == vi]
        for i in range(0, len(mine), chunk):
            jobs.append((v, mine[i:i + chunk], "%s-%s-s%d" % (m.module, v, i)))
        mine = [[(op, (var + 7 * vi) % 12, x) for op, var, x in s] for s in long]
        step = max(1, chunk * 2 // depth)
        for i in range(0, len(mine), step):
            jobs.append((v, mine[i:i + step], "%s-%s-l%d" % (m.module, v, i)))

    def go(j):
        if ck.violations or ck.left(budget) < 0:
            return None
        b = judge(ck, m, *j)
        return (j[0], b) if b else None
    for r in core.parallel(go, jobs):
        if r and not ck.violations:
            v, (s, what) = r
            again = judge(ck, m, v, [s], "confirm", False)
            if not again:
                raise core.Broken("a rejection did not repeat: %s" % what)
            s = shrink(ck, m, v, s)
            again = judge(ck, m, v, [s], "confirm", False) or again
            ck.violation("%s, variant %s: %s" % (m.module, v, again[1]),
                         {"module": m.module, "variant": v, "direction": "behaviour of the specification executed on the code and checked against it",
                          "commands": [seq.ctext(*c) for c in s]})
