from . import arrays, raws, sess

W = {"slice": 30, "view": 30, "nest": 8, "new": 12, "copy": 6, "drop": 16, "export": 8, "paths": 6, "mut": 8, "move": 3, "wrap": 2,
     "assign": 3, "massign": 2, "at": 2, "refer": 3, "share": 3}


def sessions(seed, n=36):
    return sess.walk(seed, n, W, (8, 18))


def run(ck):
    arrays.check(ck, sessions, 400 if ck.thorough else 40, 700 if ck.thorough else 300)
