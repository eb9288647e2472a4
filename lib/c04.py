from . import core, seq

OPS = ["push", "pop", "ins", "insN", "insR", "insL", "er", "erR", "erR0", "resV", "set", "copyTo", "copyNew", "moveTo",
       "moveNew", "selfAsg", "swap", "dropB", "slice"]


def fam(name, elem, variants, routes=tuple(range(8))):
    return seq.Family(name, [("arrays.cpp", ["-DARR=0", "-DELEM=" + elem])], OPS, "nullable", [-1, 0, 1], 0,
                      variants=variants, routes=routes, rvals=[-1, -1] + list(range(8)), lib=True)


def run(ck):
    ck.assumptions = ["arrays own their structures and have a validity buffer",
                      "bool arrays are excluded (known finding of C08/C09/C10)"]
    fams = [fam("int32", "std::int32_t", (0, 1, 2)), fam("double", "double", (0, 3), (0, 2, 3, 7)),
            fam("uint8", "std::uint8_t", (0, 4), (0, 2, 3, 6))]
    if ck.thorough:
        fams += [fam("int64", "std::int64_t", (0, 1), (0, 2, 3)), fam("uint16", "std::uint16_t", (0, 1), (1, 2, 4)),
                 fam("int8", "std::int8_t", (0, 1), (3, 4, 5)), fam("float", "float", (0, 1), (0, 2, 7)),
                 fam("uint64", "std::uint64_t", (0, 1), (5, 6)), fam("uint32", "std::uint32_t", (0, 1), (2, 3))]
        cfg = {"model": dict(maxlen=4, maxlenb=1, maxcnt=3, maxrange=2),
               "random": dict(chunks=30, sessions=60, steps=40, maxlens=[60, 20, 140]), "budget": 700}
    else:
        cfg = {"model": dict(maxlen=3, maxlenb=1, maxcnt=2, maxrange=2),
               "random": dict(chunks=5, sessions=30, steps=40, maxlens=[60, 20, 140]), "budget": 300}
    seq.check(ck, fams, cfg)
