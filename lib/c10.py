from . import arrays, raws, sess

W = {"new": 14, "sib": 16, "nest": 6, "copy": 30, "assign": 14, "massign": 10, "self": 6, "move": 12, "swap": 8, "wrap": 3, "slice": 6, "view": 4,
     "drop": 18, "mut": 24, "export": 4, "ext": 2, "back": 2, "refer": 4, "share": 5, "none": 3}


def sessions(seed, n=36):
    return (sess.walk(seed, n // 2, W, (10, 22)) +
            sess.walk(seed + 1, n // 2, W, (10, 22), roots=["p", "u"], depth=1, makes=0, mode="sp"))


def run(ck):
    arrays.check(ck, sessions, 400 if ck.thorough else 40, 700 if ck.thorough else 300)
