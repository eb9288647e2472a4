from . import arrays, core, sess, small

W = {"view": 25, "paths": 20, "export": 14, "eq": 8, "copy": 10, "slice": 12, "drop": 14, "new": 10, "sib": 4, "nest": 4, "at": 3, "pos": 3, "move": 4, "wrap": 3, "assign": 3}


def sessions(seed, n=36):
    return sess.walk(seed, n, W, (8, 16), makes=.05, mode="ll")


def bad(key):
    def f(e):
        if key == "look":
            for v in e["obs"]["look"]:
                if v[2]:
                    v[2][0] += 3
                    return True
            return False
        e["obs"][key] = e["obs"][key] + [1] if key == "agree" else [1 - e["obs"][key][0]] + e["obs"][key][1:] if key in ("mb", "mv") else 0
        return True
    return f


CORRUPT = {k: bad(k) for k in ("mb", "mv", "look", "guards", "structs", "agree")}


def run(ck):
    exe = core.compile_all({"memory": [("memory.cpp", [])]}, True)["memory"]
    ck.log("harness built")
    t = ck.thorough
    base = {"Slots": {1, 2}, "Reads": True, "Pats": {0}, "MaxDirty": 1}

    def machine(nb, nv, variants, sim, **k):
        c = dict(base, NB=nb, NV=nv, **k)
        return small.Machine("Memory", exe, c, ["%d-%d-%d" % (v, nb, nv) for v in variants], ["TypeOK"], ["Untouched"],
                             sim_constants=dict(c, NB=nb, NV=nv, MaxDirty=999, **sim), constraints=["Small"])

    def initial(nb, nv):
        return [0] + [1] * nb + [i % 3 for i in range(1, nv + 1)] + [0] * 12
    # bitset views, around the ends of blocks
    small.check(ck, machine(72, 2, [0, 1, 2, 3], {}, Ks={1, 7}, Lens={0, 7, 8, 63, 64, 72} if t else {0, 8, 65}, Offs={0}, Pos={0, 1, 7, 8, 63, 64},
                            Vals={0, 1}, Pats={0, 1, 2} if t else {0, 2}),
                CORRUPT, initial(72, 2), (0, 1, 0), 700 if t else 300, spread=not t)
    # buffer views and arrays
    small.check(ck, machine(4, 3, [0, 1, 2, 3], {}, Ks={2, 3, 4}, Lens={0, 2, 3} if t else {0, 2}, Offs={0, 1}, Pos={0, 1, 2, 3} if t else {0, 1, 2},
                            Vals={-1, 1, 12} if t else {-1, 1}, Pats={0, 2}),
                CORRUPT, initial(4, 3), (0, 1, 0), 700 if t else 300, spread=not t)
    # long behaviours over everything
    sim = {"Ks": {1, 2, 3, 4, 7}, "Lens": {0, 1, 5, 8, 9, 16, 40, 63, 64, 65, 100, 129}, "Offs": {0, 1, 2, 3}, "Pos": {0, 1, 2, 5, 7, 8, 15, 31, 40, 63, 64, 65},
           "Vals": {-1, 0, 1, 2, 10, 12}, "Pats": {0, 1, 2, 3}}
    small.check(ck, machine(200, 48, [0, 1, 2, 3], sim, Ks={1}, Lens={3}, Offs={0}, Pos={0}, Vals={0}), CORRUPT, initial(200, 48),
                (60, 120, 12) if t else (25, 80, 4), 700 if t else 300)
    # readers of arrays of every layout over lent structures
    if not ck.violations:
        arrays.check(ck, sessions, 80 if t else 8, 800 if t else 300)
