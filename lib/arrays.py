"""The array machine: sessions of commands, their execution and their validation (spec/ArrayTrace.tla)."""
import json, os, re
from . import core, raws, seq

PARTS = [("arr_main.cpp", [])] + [("slots_%s.cpp" % c, []) for c in "abcde"]
K = 6
MODES = {"oo": 0, "ol": 1, "ll": 2, "sp": 3, "so": 4, "sl": 5, "os": 6}
OWNED = ("oo", "sp", "so", "os")      # what may be extracted
MADE = ("sp", "so", "sl")             # what may be mutated
NOTHING = ("nothing",)                # the type of a default constructed array
PLACEHOLDER = {"s": 0, "d": 0, "x": [], "m": "", "v": [], "raw": 0}


def build():
    return core.compile_all({"arrays_all": PARTS}, True)["arrays_all"]


class Slot:
    def __init__(self, t, n, kind, imp=0, mode="sp", dep=(), view=False, validity=False, by=False, shared=False):
        self.t, self.n, self.kind, self.imp, self.mode = t, n, kind, imp, mode
        self.dep, self.view, self.validity = set(dep), view, validity
        self.by, self.shared = by, shared      # refers to a layout; shares it with its copies

    def like(self, **kw):
        s = Slot(self.t, self.n, self.kind, self.imp, self.mode, self.dep, self.view, self.validity, self.by, self.shared)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def copy(self):
        return self.like() if self.by or self.shared else self.like(imp=0, mode="sp", dep=set(), view=False)


class Session:
    """Writes one session; keeps just enough state to write applicable commands."""

    def __init__(self, gen):
        self.g, self.r = gen, gen.r
        self.slots, self.cmds, self.imps, self.held = {}, [], [], None
        self.emit("new")

    def emit(self, op, s=0, d=0, x=(), t=(), u="", **kw):
        ev = dict(PLACEHOLDER, s=s, d=d, x=list(x), **kw)
        text = seq.ctext(op, self.r.randrange(12), [s, d] + list(x), t, [ord(c) for c in u])
        self.cmds.append((op, text, ev))

    # -- state queries
    def free(self):
        f = [i for i in range(1, K + 1) if i not in self.slots]
        return self.r.choice(f) if f else 0

    def pick(self, p=lambda s: True):
        c = [i for i, s in self.slots.items() if p(s)]
        return self.r.choice(c) if c else 0

    def nodep(self, i):
        return all(i not in s.dep for s in self.slots.values())

    # -- commands; each returns whether it was applicable
    def imp(self, raw, t, mode=None, kind=None):
        d = self.free()
        if not d:
            return False
        mode = mode or self.r.choice(["oo", "oo", "ol", "ll", "ll", "sp", "sp", "so", "sl", "os"])
        typed = raws.typed_kind(t)
        views = t[0] in ("vu", "vz")
        kind = kind or (typed if typed and (views or self.r.random() < .5) else "array")
        if kind == "array" and views:
            kind = typed
        if mode == "sp":
            self.emit("imp", 0, d, [3], raws.flat(raw), kind, raw=raw)
            self.cmds[-1] = ("make",) + self.cmds[-1][1:]
            self.slots[d] = Slot(t, raw["len"], kind, validity=bool(raw["bufs"]) and raw["bufs"][0]["p"] == 1)
        else:
            self.imps.append(mode)
            self.emit("imp", 0, d, [MODES[mode]], raws.flat(raw), kind, raw=raw, m=mode)
            self.slots[d] = Slot(t, raw["len"], kind, len(self.imps), mode,
                                 validity=bool(raw["bufs"]) and raw["bufs"][0]["p"] == 1)
        return d

    def bad(self, raw):
        d = self.free()
        if not d:
            return False
        raw = self.g.refused(raw)
        mode = self.r.choice(["oo", "oo", "ol", "ll"])
        self.imps.append(mode)
        self.emit("badimp", 0, d, [MODES[mode]], raws.flat(raw), raw=raw, m=mode)
        return True

    def make(self, raw, t):
        d = self.free()
        if not d:
            return False
        self.emit("make", 0, d, [self.r.randrange(72)], raws.flat(raw), raw=raw)
        self.slots[d] = Slot(t, raw["len"], t[0] if t[0] in ("vu", "vz") else "array", validity=True)
        return d

    def nest(self, reject=.15):
        """A parent made of arrays there are."""
        r, S = self.r, self.slots
        d = self.free()
        good = lambda x: x.kind == "array" and not x.shared and x.t != NOTHING and x.mode != "any" and raws.depth(x.t) < 4 and not x.view and (r.random() < reject or x.mode in OWNED)
        first = self.pick(good)
        if not d or not first or not self.nodep(first):
            return False
        N = S[first].n
        k = r.choice(["s", "s", "l", "L", "vl", "vL", "w", "d", "us", "ud", "r"])
        src = [first]
        if k in ("s", "us", "ud"):
            more = [i for i, x in S.items() if i != first and self.nodep(i) and good(x) and (k == "ud" or x.n == N)]
            src = r.sample([first] + more, r.randint(1, min(3, 1 + len(more))))
        ts = tuple(S[i].t for i in src)
        n = r.choice([0, 1, 2, 3, 5, 9])
        le, buf = raws.le, raws.buf
        ch, di = [], False
        if k in ("r", "d", "ud") and (not N or any(S[i].n == 0 for i in src)):
            return False
        if k == "s":
            f, n, bufs, t = "+s", S[src[0]].n, [], ("s", ts)
        elif k in ("l", "L"):
            f, w = "+" + k, 4 if k == "l" else 8
            cuts = sorted(r.choice([0, N, r.randint(0, N)]) for _ in range(n + 1))
            bufs, t = [buf(b"".join(le(c, w) for c in cuts))], ("l", f, ts[0])
        elif k in ("vl", "vL"):
            f, w = "+" + k, 4 if k == "vl" else 8
            at = [r.randint(0, N) for _ in range(n)]
            sz = [r.randint(0, min(3, N - a)) for a in at]
            bufs, t = [buf(b"".join(le(c, w) for c in at)), buf(b"".join(le(c, w) for c in sz))], ("vl", f, ts[0])
        elif k == "w":
            m = r.randint(1, 3)
            f, n, bufs, t = "+w:%d" % m, N // m, [], ("w", m, ts[0])
        elif k == "d":
            f, di = r.choice(raws.KEYS), True
            bufs, t = [buf(b"".join(le(r.randrange(N), raws.W[f]) for _ in range(n)))], ("d", f, ts[0])
        elif k in ("us", "ud"):
            ids = tuple(range(len(src))) if r.random() < .4 else tuple(r.sample([0, 1, 2, 3, 5, 7, 64, 127], len(src)))
            t = (k, ids, ts)
            f = raws.fmt(t)
            n = S[src[0]].n if k == "us" else n
            which = [r.randrange(len(src)) for _ in range(n)]
            bufs = [buf(bytes(ids[c] for c in which))]
            if k == "ud":
                bufs.append(buf(b"".join(le(r.randrange(S[src[c]].n), 4) for c in which)))
        else:
            typ = r.choice(raws.RUNS)
            f, ends = "+r", []
            for _ in range(N):
                ends.append((ends[-1] if ends else 0) + r.choice([1, 1, 2, 3]))
            n, bufs, t = ends[-1], [], ("r", typ, ts[0])
            ch = [self.g.encode(("p", typ), [le(e, raws.W[typ]) for e in ends], simple=True)]
        nc = 0
        if k not in ("us", "ud", "r"):
            vb, nc = self.g.validity([r.random() < .75 for _ in range(n)], 0, n, True)
            bufs = [vb] + bufs
        raw = raws.node(f, n, 0, nc, bufs, ch)
        if di:
            raw["k"], raw["w"] = "dict", raws.W[f]
        self.emit("nest", 0, d, [r.randrange(72), int(di)] + src, raws.flat(raw), raw=raw)
        if all(S[i].mode in OWNED for i in src):
            for i in src:
                del S[i]
            S[d] = Slot(t, n, "array")
        return True

    def op(self, op, one=0, two=0):
        """one, two: the slots to take, if the operation is about two."""
        r = self.r
        S = self.slots
        some = lambda x: x.t != NOTHING
        if op == "nest":
            return self.nest()
        if op == "none":
            d = self.free()
            if d:
                self.emit(op, 0, d)
                S[d] = Slot(NOTHING, 0, "array")
                return True
        if op == "refer":
            s, d = self.pick(lambda x: x.kind not in ("array", "vu", "vz")), self.free()
            if s and d:
                self.emit(op, s, d)
                S[d] = S[s].like(imp=0, mode="sp", dep={s} | S[s].dep, view=True, kind="array", by=True)
                return True
        if op == "share":
            s = self.pick(lambda x: x.kind not in ("array", "vu", "vz"))
            if s and self.nodep(s):
                self.emit(op, s, 0)
                S[s].kind, S[s].shared = "array", True
                return True
        if op == "copy":
            s, d = self.pick(), self.free()
            if s and d:
                self.emit(op, s, d)
                S[d] = S[s].copy()
                return True
        elif op in ("assign", "massign"):
            s = one or self.pick()
            d = two or self.pick(lambda x: s and x.kind == S[s].kind)
            if s and d and s != d and self.nodep(d) and d not in S[s].dep and (op == "assign" or self.nodep(s)):
                self.emit(op, s, d)
                if op == "assign":
                    S[d] = S[s].copy()
                else:
                    S[d] = S.pop(s)
                return True
        elif op == "self":
            s = self.pick()
            if s and self.nodep(s):
                self.emit(op, s, s)
                if S[s].mode != "sp" and not S[s].shared:
                    S[s].mode = "any"        # it may be a copy now
                return True
        elif op == "move":
            s, d = self.pick(), self.free()
            if s and d and self.nodep(s):
                self.emit(op, s, d)
                S[d] = S.pop(s)
                return True
        elif op == "swap":
            s = one or self.pick()
            d = two or self.pick(lambda x: s and x.kind == S[s].kind)
            if s and d and s != d and self.nodep(s) and self.nodep(d):
                self.emit(op, s, d)
                S[s], S[d] = S[d], S[s]
                return True
        elif op == "wrap":
            s = self.pick(lambda x: x.kind not in ("array", "vu", "vz"))
            if s and self.nodep(s):
                self.emit(op, s, 0)
                S[s].kind = "array"
                return True
        elif op in ("slice", "view"):
            s, d = self.pick(some), self.free()
            if s and d:
                n = S[s].n
                a = r.choice([0, n, r.randint(0, n), r.randint(0, n)])
                b = r.choice([n, a, r.randint(a, n), r.randint(a, n)])
                self.emit(op, s, d, [a, b])
                S[d] = S[s].like(imp=0, mode="sp", n=b - a, dep=({s} | S[s].dep if op == "view" else set()), view=op == "view",
                                 by=False, shared=False)
                return True
        elif op == "drop":
            s = self.pick()
            if s and self.nodep(s):
                self.emit(op, s, 0)
                del S[s]
                return True
        elif op == "ext":
            s = self.pick(lambda x: not x.view and not x.shared and some(x) and x.mode in OWNED)
            if s and self.nodep(s) and not self.held:
                self.emit(op, s, 0)
                self.held = S.pop(s)
                return True
        elif op == "back":
            d = self.free()
            if d and self.held:
                typed = raws.typed_kind(self.held.t)
                kind = typed if typed and (self.held.t[0] in ("vu", "vz") or r.random() < .5) else "array"
                self.emit(op, 0, d, [], (), kind)
                S[d] = self.held.like(kind=kind)
                self.held = None
                return True
        elif op == "rel":
            if self.held:
                self.emit(op)
                self.held = None
                return True
        elif op == "noext":
            s = self.pick(lambda x: x.mode == "ll" and not x.view and x.imp)
            if s:
                self.emit(op, s, 0)
                return True
        elif op == "export" or op == "paths":
            s = self.pick(some)
            if s:
                self.emit(op, s, 0)
                return True
        elif op == "eq":
            s = one or self.pick(lambda x: x.kind != "vz" and some(x))
            d = two or self.pick(lambda x: s and some(x) and x.kind == S[s].kind and (r.random() < .3 or x.t == S[s].t))
            if s and d:
                self.emit(op, s, d)
                return True
        elif op == "pos":
            s = self.pick(some)
            if s:
                n = S[s].n
                self.emit(op, s, 0, [r.choice([0, n, r.randint(0, n)]), r.choice([0, n, r.randint(0, n)])])
                return True
        elif op == "at":
            s = self.pick(lambda x: x.kind in ("array", "c", "S", "i", "l", "g", "e", "u", "vu", "vz", "+l", "+L", "+vl", "+vL", "+w", "+s"))
            if s:
                n = S[s].n
                self.emit(op, s, 0, [r.choice([n, n + 1, max(n - 1, 0), r.randint(0, n + 70), -1, -2, -3])])
                return True
        elif op == "nomut":
            s = self.pick(lambda x: x.kind == raws.typed_kind(x.t) and raws.mutable_kind(x.t) and (x.view or x.imp and x.mode in MODES and x.mode not in MADE))
            if s and self.nodep(s):
                n = S[s].n
                k = r.choice([0, 1, 2, 3, 4, 5, 9] + ([6, 7, 8, 10] if n else []))
                if k == 10 and S[s].t[0] != "u":
                    k = 0
                i = r.randint(0, n - 1) if k in (6, 7, 10) else r.randint(0, n)
                m = r.randint(1, 4) if k == 2 else r.randint(i + 1, n) if k == 7 else r.choice([x for x in (0, n - 1, n + 1, n + 20) if x != n and x >= 0]) if k == 9 else 0
                self.emit(op, s, 0, [k, i, m])
                return True
        elif op == "mut":
            s = self.pick(lambda x: x.kind == raws.typed_kind(x.t) and raws.mutable_kind(x.t) and x.mode in MADE and not x.view and x.validity)
            if s and self.nodep(s):
                t, n = S[s].t, S[s].n
                which = r.choice(["set", "set", "set", "push", "ins", "er", "pop"] if n else ["push", "ins"])
                null = r.random() < .3
                v = self.g.value(t, False)
                tag = ["n"] if null else ["p", t[1], list(v)] if t[0] == "p" else ["b", "u", list(v)]
                i = r.randint(0, n - 1) if which in ("set", "er") else r.randint(0, n)
                if which in ("set", "push", "ins"):
                    self.emit(which, s, 0, [i, 0 if null else 1], list(v), v=tag)
                else:
                    self.emit(which, s, 0, [i])
                S[s].n += {"set": 0, "push": 1, "ins": 1, "er": -1, "pop": -1}[which]
                return True
        return False

    def end(self):
        """Everything goes away, views first; then nothing may be left over."""
        if self.held:
            self.op("rel")
        while self.slots:
            self.op("drop")
        self.emit("end")


def execute(ck, exe, sessions, tag):
    """Runs sessions; (events, None) or (events, Died)."""
    src, out = os.path.join(ck.dir, "%s.txt" % tag), os.path.join(ck.dir, "%s.nd" % tag)
    cmds = [c for s in sessions for c in s]
    with open(src, "w") as f:
        for _, text, _ in cmds:
            f.write(text + "\n")
    died = None
    try:
        seq.execute(exe, ["run", src], out, 400)
        with open(out) as f:
            got = [json.loads(l) for l in f]
    except seq.Died as e:
        died, got = e, e.done
    if died is None and len(got) != len(cmds):
        raise core.Broken("harness wrote %d events for %d commands" % (len(got), len(cmds)))
    evs = []
    for (op, _, ev), g in zip(cmds, got):
        e = dict(ev, op=op, out=g["out"], obs=g["obs"], rel=g["rel"], tch=g["tch"], leak=g["leak"])
        if op == "export":
            raws.annotate(e["out"])
        evs.append(e)
    os.unlink(src)
    os.unlink(out)
    return evs, died


def validate(ck, evs, tag, heap="3g"):
    p = os.path.join(ck.dir, "%s-trace.nd" % tag)
    with open(p, "w") as f:
        for e in evs:
            f.write(json.dumps(e) + "\n")
    r = core.tlc(ck.dir, "ArrayTrace", spec="TraceSpec", constants={"Slots": set(range(1, K + 1))}, invariants=["Sound"],
                 postcondition="TraceAccepted", env={"TRACE": p}, heap=heap)
    os.unlink(p)
    if "the driver made a malformed structure" in r.out:
        raise core.Broken("the driver made a malformed structure:\n" + r.out[-3000:])
    ok, at = seq.accepted(r)
    return r, ok, at


def session_of(sessions, at):
    n = 0
    for s in sessions:
        if at < n + len(s):
            return s[:at - n + 1]
        n += len(s)
    return sessions[-1]


def confirm(ck, exe, cmds):
    """Re-runs one session; what is rejected, or None."""
    evs, died = execute(ck, exe, [cmds], "confirm")
    if evs:
        r, ok, at = validate(ck, evs, "confirm")
        if not ok:
            e = evs[at]
            return "no step of the specification explains event %s (command '%s')" % (json.dumps(e)[:1500], cmds[at][1][:300])
    if died:
        return "crash at '%s': %s" % (died.cmd[:300], seq.crash_summary(died.stderr))
    return None


def run_chunk(ck, exe, sessions, tag):
    """None, or the commands of the session that is rejected."""
    evs, died = execute(ck, exe, sessions, tag)
    bad = None
    if evs:
        r, ok, at = validate(ck, evs, tag)
        ck.states += r.distinct
        ck.transitions += r.generated
        ck.events += len(evs)
        ck.traces += len(sessions)
        for e in evs:
            ck.ops[e["op"]] = ck.ops.get(e["op"], 0) + 1
        if not ok:
            bad = session_of(sessions, at)
    if bad is None and died is not None:
        bad = session_of(sessions, len(evs))
    return bad


def shrink(ck, exe, cmds, limit=14):
    """Leaves out reading commands that do not matter; the rest is kept."""
    for op in ("paths", "pos", "at", "eq", "export", "self"):
        if limit <= 0:
            break
        less = [c for i, c in enumerate(cmds) if c[0] != op or i == len(cmds) - 1]
        if len(less) < len(cmds):
            limit -= 1
            if confirm(ck, exe, less):
                cmds = less
    return cmds


def selftest(ck, exe, sessions):
    """A recorded trace with one corrupted field has to be rejected."""
    evs, died = execute(ck, exe, sessions, "self")
    if died:
        return
    _, ok, _ = validate(ck, evs, "self")
    if not ok:
        return
    def corrupt(name, pred, change):
        idx = [i for i, e in enumerate(evs) if pred(e)]
        if not idx:
            return
        i = idx[len(idx) // 2]
        bad = json.loads(json.dumps(evs))
        change(bad[i])
        _, ok2, at = validate(ck, bad, "self-" + name)
        if ok2 or at > i:
            raise core.Broken("the specification accepts a corrupted trace (%s)" % name)
        ck.selftests.append(name)

    def drop_elem(e):
        next(o for o in e["obs"] if o[1])[1].pop()
    def bump(e):
        e["rel"][0][0] += 1
    def off(e):
        e["out"]["off"] += 1
    jobs = [("element", lambda e: any(o[1] for o in e["obs"]), drop_elem), ("release", lambda e: e["rel"], bump),
            ("touched", lambda e: True, lambda e: e["tch"].append(1)),
            ("export", lambda e: e["op"] == "export" and e["out"]["len"] > 0, lambda e: e["out"].update(len=e["out"]["len"] - 1)),
            ("leak", lambda e: e["op"] == "end", lambda e: e.update(leak=1))]
    core.parallel(lambda j: corrupt(*j), jobs)


def check(ck, make_sessions, chunks, budget, exe=None):
    """make_sessions(seed) -> sessions of one chunk."""
    exe = exe or build()
    ck.ops, ck.selftests = {}, []
    ck.log("harness built")
    selftest(ck, exe, make_sessions(ck.seed * 7919 + 13)[:12])

    def go(k):
        if ck.violations or ck.left(budget) < 0:
            return None
        return run_chunk(ck, exe, make_sessions(ck.seed * 100003 + k), "c%d" % k)

    for bad in core.parallel(go, range(chunks)):
        if bad and not ck.violations:
            what = confirm(ck, exe, bad)
            if not what:
                raise core.Broken("a rejection did not repeat: %s" % [c[1] for c in bad][-3:])
            bad = shrink(ck, exe, bad)
            ck.violation(confirm(ck, exe, bad) or what, {"direction": "recorded trace checked against the specification",
                                                        "commands": [c[1] for c in bad], "events": [c[2] for c in bad],
                                                        "ops": [c[0] for c in bad]})
    ck.sample({"operations_validated": ck.ops})
    ck.extra["operations"] = ck.ops
    ck.extra["corruptions_rejected"] = ck.selftests
