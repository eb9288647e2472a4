from . import arrays, c18, core, raws, sess, small

W = {"new": 20, "sib": 8, "nest": 12, "copy": 10, "assign": 12, "massign": 14, "self": 6, "move": 12, "swap": 10, "wrap": 6, "slice": 8, "view": 6,
     "drop": 14, "ext": 12, "back": 12, "rel": 6, "noext": 4, "export": 3, "mut": 3, "refer": 6, "share": 6, "none": 4}


def sessions(seed, n=36):
    return sess.walk(seed, n, W, (12, 30), makes=.2, lengths=[0, 1, 3, 9])


def run(ck):
    # parts of one structure with different owners
    t = ck.thorough
    m = c18.machine(c18.harness(), c18.PARTS | {"new", "drop"}, c18.PARTS | c18.WHOLE | {"name"},
                    Tmpls={1, 2, 3} if t else {1, 2}, Lens={3}, Strs={-1}, Flags={0}, MaxCh=2, MaxBits=5)
    small.check(ck, m, c18.CORRUPT, [0, 0], (60, 120, 8) if t else (40, 80, 4), 300 if t else 120)
    arrays.check(ck, sessions, 400 if t else 40, 700 if t else 300)
