from . import arrays, raws, sess

W = {"new": 20, "sib": 10, "nest": 8, "paths": 40, "pos": 40, "at": 15, "slice": 10, "view": 10, "copy": 5, "drop": 20, "mut": 12, "wrap": 3, "refer": 4, "share": 3}


def sessions(seed, n=36):
    return sess.walk(seed, n, W, (10, 20))


def run(ck):
    arrays.check(ck, sessions, 400 if ck.thorough else 40, 700 if ck.thorough else 300)
