from . import core, seq
from .c04 import OPS


def run(ck):
    ck.assumptions = ["arrays own their structures and have a validity buffer", "32-bit offsets (big_string_array cannot be built)"]
    fams = [seq.Family("string", [("arrays.cpp", ["-DARR=1"])], OPS, "nullable", [-1, 0, 1], 0, variants=(0, 1, 2),
                       routes=tuple(range(8)), rvals=[-1, -1] + list(range(8)), lib=True)]
    if ck.thorough:
        cfg = {"model": dict(maxlen=4, maxlenb=1, maxcnt=3, maxrange=2),
               "random": dict(chunks=80, sessions=60, steps=40, maxlens=[30, 12, 80]), "budget": 700}
    else:
        cfg = {"model": dict(maxlen=3, maxlenb=1, maxcnt=2, maxrange=2),
               "random": dict(chunks=14, sessions=30, steps=40, maxlens=[30, 12, 80]), "budget": 300}
    seq.check(ck, fams, cfg)
