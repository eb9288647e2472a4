from . import core, seq

OPS = ["push", "pop", "ins", "insN", "insR", "insB", "emplace", "er", "erR", "res", "resV", "clear", "set", "copyTo",
       "copyNew", "moveTo", "moveNew", "selfAsg", "dropB"]


def fam(block, non=False):
    defs = ["-DBLOCK=std::%s_t" % block] + (["-DNONOWNING"] if non else [])
    return seq.Family("bits_%s%s" % (block, "_view" if non else ""), [("bits.cpp", defs)],
                      OPS if non else OPS + ["swap"], "bits", [0, 1], 0, variants=(0, 1, 2),
                      routes=(0,) if non else tuple(range(8)))


def run(ck):
    ck.assumptions = ["erasing the empty range of an empty bitset is excluded (asserted precondition)",
                      "lengths up to about 300 bits; block types uint8, uint16, uint32, uint64"]
    fams = [fam("uint8"), fam("uint64"), fam("uint8", True)]
    if ck.thorough:
        fams += [fam("uint16"), fam("uint32"), fam("uint64", True)]
        cfg = {"model": dict(maxlen=6, maxlenb=2, maxcnt=3, maxrange=3),
               "random": dict(chunks=40, sessions=60, steps=40, maxlens=[140, 40, 20]), "budget": 700}
    else:
        cfg = {"model": dict(maxlen=4, maxlenb=2, maxcnt=2, maxrange=2),
               "random": dict(chunks=4, sessions=30, steps=40, maxlens=[140, 40, 20]), "budget": 300}
    seq.check(ck, fams, cfg)
