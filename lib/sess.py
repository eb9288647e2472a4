"""Sessions of the array machine: what each property makes happen most."""
from . import arrays, raws

ROOTS = ["p", "p", "u", "u", "n", "l", "L", "vl", "vL", "w", "s", "ud", "us", "r", "d", "vu", "vz"]
LENGTHS = [0, 1, 2, 5, 9, 12, 17]


def draw(r, weights):
    return r.choices(list(weights), list(weights.values()))[0]


def fresh(s, roots, depth, makes=.3, mode=None, kind=None, lengths=LENGTHS, vals=None, t=None):
    """One more array: made by a constructor of the library or imported."""
    g, r = s.g, s.r
    if r.random() < makes:
        t = t or g.typ(depth, root=r.choice(roots), simple=True)
        v = vals if vals is not None else g.values(t, r.choice(lengths))
        return s.make(g.encode(t, v, simple=True), t)
    t = t or g.typ(depth, root=r.choice(roots))
    v = vals if vals is not None else g.values(t, r.choice(lengths))
    return s.imp(g.encode(t, v), t, mode=mode, kind=kind)


def sibling(s, depth, mode=None, lengths=LENGTHS):
    """An array of a layout there is already, of another type perhaps, that then meets the first."""
    g, r = s.g, s.r
    a = s.pick(lambda x: x.kind not in ("array", "vu", "vz"))
    if not a:
        return
    k = s.slots[a].kind
    t = g.sibling(s.slots[a].t, depth)
    if raws.typed_kind(t) != k:
        return
    b = s.imp(g.encode(t, g.values(t, r.choice(lengths))), t, mode=mode, kind=k)
    for _ in range(r.choice([1, 1, 2])):
        if b in s.slots and a in s.slots:
            s.op(r.choice(["assign", "assign", "massign", "swap", "eq"]), *r.choice([(a, b), (b, a)]))


def large(g, mode=None, mutate=True):
    """A short session about one array that is large in some way."""
    s, r = arrays.Session(g), g.r
    makes = mode is None and r.random() < .3
    t, v = g.large(makes)
    if makes:
        s.make(g.encode(t, v, simple=True), t)
    else:
        s.imp(g.encode(t, v), t, mode=mode)
    for _ in range(r.randint(2, 4)):
        s.op(r.choice(["copy", "slice", "view", "export", "paths", "at", "eq", "assign", "move"] + ["mut"] * (2 * mutate)))
    s.end()
    return s.cmds


def walk(seed, n, weights, steps, roots=ROOTS, depth=3, makes=.3, mode=None, kind=None, lengths=LENGTHS):
    """Random histories: "new" makes a fresh array, other operations are those of arrays.Session."""
    g = raws.Gen(seed)
    out = []
    for _ in range(n):
        s = arrays.Session(g)
        fresh(s, roots, depth, makes, mode, kind, lengths)
        for _ in range(g.r.randint(*steps)):
            op = draw(g.r, weights)
            if op == "sib":
                sibling(s, depth, mode, lengths)
            elif op == "new":
                fresh(s, roots, depth, makes, mode, kind, lengths)
            elif op == "badimp":
                t = g.typ(depth, root=g.r.choice(roots))
                s.bad(g.encode(t, g.values(t, g.r.choice(lengths))))
            else:
                s.op(op)
        s.end()
        out.append(s.cmds)
    return out + [large(g, mode) for _ in range(n // 12)]
