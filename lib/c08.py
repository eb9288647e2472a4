from . import arrays, raws, sess

W = {"new": 30, "nest": 14, "export": 40, "copy": 8, "slice": 12, "view": 5, "drop": 14, "mut": 12, "wrap": 3, "ext": 3, "back": 3,
     "assign": 3, "move": 3, "refer": 3, "share": 3}


def sessions(seed, n=36):
    return sess.walk(seed, n, W, (8, 16), makes=.85)


def run(ck):
    arrays.check(ck, sessions, 400 if ck.thorough else 40, 700 if ck.thorough else 300)
