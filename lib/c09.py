from . import arrays, raws, sess

ROOTS = ["p", "p", "u", "u", "n", "l", "L", "vl", "vL", "w", "s", "ud", "us", "r", "d", "vu", "vz"]


def sessions(seed, n=40, depth=3):
    g = raws.Gen(seed)
    out = []
    for _ in range(n):
        s = arrays.Session(g)
        for _ in range(g.r.randint(3, 6)):
            t = g.typ(depth, root=g.r.choice(ROOTS))
            vals = g.values(t, g.r.choice([0, 1, 2, 5, 9, 12, 17]))
            s.imp(g.encode(t, vals), t)
            for _ in range(g.r.randint(0, 3)):
                s.op(g.r.choice(["paths", "at", "copy", "slice", "view", "drop", "export"]))
        s.end()
        out.append(s.cmds)
    return out + [sess.large(g) for _ in range(4)]


def run(ck):
    arrays.check(ck, lambda seed: sessions(seed), 200 if ck.thorough else 32, 700 if ck.thorough else 300)
