"""C11: the builder.  BuildMachine's values, all small ones and random large ones, handed to
the real builder; the arrays it makes are checked against the specification."""
import json, os, random, struct
from . import core, raws, seq


def harness():
    return core.compile_all({"builds": [("builds_main.cpp", [])] + [("builds.cpp", ["-DPART=%d" % i, "-O0"]) for i in range(8)]}, True)["builds"]


def strip(t):
    return strip(t[1]) if t[0] in "ndr" else t


def flat(t, v):
    """The form harness/builds.hpp parses."""
    k = t[0]
    if k == "p":
        return list(v)
    if k == "b":
        return [len(v)] + list(v)
    if k == "l":
        return [len(v)] + [x for e in v for x in flat(t[1], e)]
    if k == "f":
        return [x for e in v for x in flat(t[2], e)]
    if k == "t":
        return [x for u, e in zip(t[1], v) for x in flat(u, e)]
    if k == "v":
        return [v[0]] + flat(t[1][v[0]], v[1])
    if k == "n":
        return [v[0]] + flat(t[1], v[1])
    return flat(t[1], v)


def has_list(t):
    k = t[0]
    return k == "l" or (has_list(t[2]) if k == "f" else any(map(has_list, t[1])) if k in "tv" else has_list(t[1]) if k in "ndr" else False)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def prim(self, f, w):
        r = self.r
        if f == "b":
            return [r.randrange(2)]
        if f in "fg":
            c = r.choice([0.0, 1.0, -2.5, 3.25e7, float("inf"), float("-inf"), float("nan"), 1e-40 if f == "f" else 5e-324, r.uniform(-9, 9)])
            return list(struct.pack("<" + {"f": "f", "g": "d"}[f], c))
        return [r.choice([0, 0, 1, 2, 127, 128, 255]) for _ in range(w)] if r.random() < .5 else [r.randrange(3)] + [0] * (w - 1)

    def value(self, t, depth=0):
        r, k = self.r, t[0]
        if k == "p":
            return self.prim(t[1], t[2])
        if k == "b":
            n = r.choice([0, 0, 1, 1, 2, 5, 12, 13, 40])
            return [r.choice([0, 65, 66, 97, 98, 195, 169, 255]) for _ in range(n)] if r.random() < .6 else list(b"abcdefghijklmnop"[:n])
        if k == "l":
            n = r.choice([0, 0, 1, 2, 3]) if depth else r.choice([0, 1, 2, 3, 7])
            return [self.value(t[1], depth + 1) for _ in range(n)]
        if k == "f":
            return [self.value(t[2], depth + 1) for _ in range(t[1])]
        if k == "t":
            return [self.value(u, depth + 1) for u in t[1]]
        if k == "v":
            c = r.randrange(len(t[1]))
            return [c, self.value(t[1][c], depth + 1)]
        if k == "n":
            return [0 if r.random() < .3 else 1, self.value(t[1], depth)]
        return self.value(t[1], depth)

    def values(self, t, n):
        """Elements of a range; repeated and neighbouring equal ones occur."""
        e, out = strip(t)[1], []
        pool = [self.value(e) for _ in range(self.r.choice([1, 2, 4, 9]))]
        p = self.r.choice([0, .5, .9])
        for _ in range(n):
            x = self.r.random()
            out.append(out[-1] if out and x < p / 2 else self.r.choice(pool) if x < p else self.value(e))
        return out


def execute(ck, exe, types, builds, tag):
    """builds: (type, form, how, large, values)."""
    src, out = os.path.join(ck.dir, tag + ".txt"), os.path.join(ck.dir, tag + ".nd")
    with open(src, "w") as f:
        for t, form, how, large, v in builds:
            f.write(seq.ctext("build", 0, [t, form, how, large], flat(types[t]["range"], v)) + "\n")
    died = None
    try:
        seq.execute(exe, ["run", src], out, 400)
        with open(out) as f:
            got = [json.loads(l) for l in f]
    except seq.Died as e:
        died, got = e, e.done
    if not died and len(got) != len(builds):
        raise core.Broken("%d events for %d builds" % (len(got), len(builds)))
    evs = []
    for (t, form, how, large, v), g in zip(builds, got):
        raws.annotate(g["raw"])
        evs.append(dict(g, t=t + 1, large=large, val=v))
    for p in (src, out):
        if os.path.exists(p):
            os.unlink(p)
    return evs, died


def validate(ck, evs, tag):
    p = os.path.join(ck.dir, tag + "-trace.nd")
    with open(p, "w") as f:
        for e in evs:
            f.write(json.dumps(e) + "\n")
    r = core.tlc(ck.dir, "BuildTrace", spec="TraceSpec", postcondition="TraceAccepted", env={"TRACE": p, "TYPES": ck.types})
    os.unlink(p)
    if "the driver made an ill typed value" in r.out:
        raise core.Broken(r.out[-3000:])
    ok, at = seq.accepted(r)
    return r, ok, at


def judge(ck, exe, types, builds, tag, count=True):
    """None or (build, what)."""
    evs, died = execute(ck, exe, types, builds, tag)
    at = None
    if evs:
        r, ok, at = validate(ck, evs, tag)
        at = None if ok else at
        if count:
            ck.transitions += r.generated
            ck.states += r.distinct
            ck.events += len(evs)
            ck.traces += 1
    if at is not None:
        return builds[at], "no step of BuildMachine explains %s" % json.dumps(evs[at])[:1800]
    if died:
        return builds[len(evs)], "crash at '%s': %s" % (died.cmd[:300], seq.crash_summary(died.stderr))
    return None


def shrink(ck, exe, types, b):
    t, form, how, large, v = b
    i, budget = 0, 30
    while i < len(v) and budget > 0:
        w = v[:i] + v[i + 1:]
        budget -= 1
        if judge(ck, exe, types, [(t, form, how, large, w)], "shrink", False):
            v = w
        else:
            i += 1
    return t, form, how, large, v


def selftest(ck, exe, types, builds):
    evs, died = execute(ck, exe, types, builds, "self")
    if died or not validate(ck, evs, "self")[1]:
        return

    def elem(x, k):
        if not x[k]:
            return False
        x[k][-1] = ["n"] if x[k][-1] != ["n"] else ["p", "c", [1]]
        return True

    def nth(e, f):
        return f(e)
    cases = {"api": lambda e: elem(e, "api"), "again": lambda e: elem(e, "again"), "src": lambda e: e.update(src=0) or True,
             "leak": lambda e: e.update(leak=2) or True, "size": lambda e: e.update(size=e["size"] + 1) or True,
             "length": lambda e: e["raw"].update(len=e["raw"]["len"] + 1) or True,
             "format": lambda e: e["raw"].update(f="+q") or True,
             "bytes": lambda e: e["raw"]["k"] == "prim" and e["raw"]["len"] > 0 and e["raw"]["nc"] == 0
             and e["raw"]["bufs"][1]["d"].__setitem__(0, e["raw"]["bufs"][1]["d"][0] ^ 1) is None}

    def one(item):
        name, fn = item
        bad = json.loads(json.dumps(evs))
        for i in range(len(bad)):
            if fn(bad[i]):
                break
        else:
            return
        _, ok, at = validate(ck, bad, "self-" + name)
        if ok or at != i:
            raise core.Broken("BuildMachine accepts a corrupted trace (%s)" % name)
        ck.extra.setdefault("corruptions_rejected", []).append(name)
    core.parallel(one, list(cases.items()))


def run(ck):
    exe = harness()
    ck.log("harness built")
    r = core.run_exe(exe, ["types"])
    types = [json.loads(l) for l in r.stdout.splitlines()]
    for t in types:
        t["range"] = t["type"]
    ck.types = os.path.join(ck.dir, "types.nd")
    with open(ck.types, "w") as f:
        for t in types:
            f.write(json.dumps({"type": t["type"]}) + "\n")
    th = ck.thorough
    builds, k = [], 0
    # every value of every type up to a size, from the specification
    per = (len(types) + 7) // 8

    def model(part):
        mine = list(range(part * per, min(len(types), (part + 1) * per)))
        p = os.path.join(ck.dir, "types-%d.nd" % part)
        with open(p, "w") as f:
            for i in mine:
                f.write(json.dumps({"type": types[i]["type"]}) + "\n")
        r = core.tlc(ck.dir, "BuildGen", constants={"Few": 3 if th else 2, "Cap": 4000 if th else 150, "MaxLen": 4 if th else 3}, invariants=["Lossless"],
                     action_constraints=["EmitStep"], env={"TYPES": p}, heap="3g")
        core.need_ok(r, "BuildMachine")
        return r, [(mine[x["t"] - 1], x["large"], x["val"]) for x in r.prints()]
    for r, got in core.parallel(model, range(8)):
        ck.model(r, "BuildMachine")
        for t, large, v in got:
            builds.append((t, k % types[t]["forms"], (k // 3) % 3, large, v))
            k += 1
    ck.cases += len(builds)
    ck.sample({"build": {"type": types[builds[len(builds) // 2][0]]["type"], "values": builds[len(builds) // 2][4]}})
    # random larger ones
    g = Gen(ck.seed * 7919 + 11)
    for i in range(60 if th else 12):
        for t, ty in enumerate(types):
            v = g.values(ty["type"], g.r.choice([0, 1, 4, 8, 9, 17, 40] + ([130] if th else [])))
            builds.append((t, (i + t) % ty["forms"], i % 3, int(has_list(strip(ty["type"])[1]) and i % 2), v))
    ck.log("%d builds of %d types" % (len(builds), len(types)))
    selftest(ck, exe, types, builds[:len(builds):max(1, len(builds) // 60)])
    chunk = 1500
    jobs = [(builds[i:i + chunk], "b%d" % i) for i in range(0, len(builds), chunk)]

    def go(j):
        if ck.violations or ck.left(700 if th else 400) < 0:
            return None
        return judge(ck, exe, types, *j)
    for b in core.parallel(go, jobs):
        if b and not ck.violations:
            bad, what = b
            if not judge(ck, exe, types, [bad], "confirm", False):
                raise core.Broken("a rejection did not repeat: " + what)
            bad = shrink(ck, exe, types, bad)
            again = judge(ck, exe, types, [bad], "confirm", False)
            ck.violation("building %s from %s: %s" % (json.dumps(types[bad[0]]["type"]), json.dumps(bad[4])[:400], (again or (0, what))[1]),
                         {"module": "BuildMachine", "type": types[bad[0]]["type"], "form": bad[1], "large": bad[3], "values": bad[4],
                          "commands": [seq.ctext("build", 0, list(bad[:4]), flat(types[bad[0]]["range"], bad[4]))]})
