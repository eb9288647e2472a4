from . import arrays, raws, sess


def sessions(seed, n=36):
    g = raws.Gen(seed)
    r = g.r
    out = []
    for turn in range(n):
        s = arrays.Session(g)
        t = g.typ(3, root=r.choice([k for k in sess.ROOTS if k != "vz"]))
        vals = g.values(t, r.choice([0, 1, 2, 5, 9, 12]))
        if turn % 12 == 7:
            t, vals = g.large()
            while t[0] == "vz":
                t, vals = g.large()
        kind = r.choice(["array", raws.typed_kind(t) or "array"])
        # the same elements in other buffers, nearly the same ones, and something else
        for k in range(r.randint(3, 5)):
            v = vals if r.random() < .6 else g.perturb(t, vals)
            s.imp(g.encode(t, v), t, kind=kind)
        if r.random() < .6:
            sess.fresh(s, [k for k in sess.ROOTS if k != "vz"], 2, .3)
        for _ in range(r.randint(2, 6)):
            s.op(r.choice(["copy", "slice", "mut", "view"]))
            for _ in range(3):
                s.op("eq")
        s.end()
        out.append(s.cmds)
    return out


def run(ck):
    arrays.check(ck, sessions, 400 if ck.thorough else 40, 700 if ck.thorough else 300)
