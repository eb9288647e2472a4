from . import core, seq

BUF = seq.PLAIN
ADA = [o for o in seq.PLAIN if o != "asgL"]
U8 = [o for o in ADA if o != "swap"]


def fam(name, kind, elem, ops, routes):
    return seq.Family(name, [("buffers.cpp", ["-DKIND=%d" % kind, "-DELEM=" + elem])], ops, "plain", [0, 1, 2], 0,
                      variants=(0, 1, 2, 3), routes=routes, rvals=list(range(9)))


def run(ck):
    ck.assumptions = ["allocator failures are not injected", "lengths up to about 300 elements"]
    fams = [fam("buffer_uint32", 0, "std::uint32_t", BUF, tuple(range(8))),
            fam("buffer_string", 0, "std::string", BUF, (0, 1, 3, 5)),
            fam("adaptor_uint64", 1, "std::uint64_t", ADA, (0, 1, 4)),
            fam("u8_buffer_double", 2, "double", U8, (0, 1, 2, 4))]
    fams.append(fam("buffer_allocators", 3, "std::uint32_t", BUF, tuple(range(32))))
    if ck.thorough:
        fams.append(fam("buffer_string_allocators", 3, "std::string", BUF, tuple(range(32))))
        fams += [fam("buffer_uint8", 0, "std::uint8_t", BUF, tuple(range(8))),
                 fam("buffer_double", 0, "double", BUF, (0, 2, 5)),
                 fam("adaptor_uint8", 1, "std::uint8_t", ADA, (0, 1, 4)),
                 fam("adaptor_uint16", 1, "std::uint16_t", ADA, (0, 1, 4)),
                 fam("u8_buffer_uint8", 2, "std::uint8_t", U8, (0, 1, 2, 3, 4, 5))]
        cfg = {"model": dict(maxlen=4, maxlenb=2, maxcnt=3, maxrange=2),
               "random": dict(chunks=30, sessions=60, steps=40, maxlens=[60, 20, 140]), "budget": 700}
    else:
        cfg = {"model": dict(maxlen=3, maxlenb=1, maxcnt=2, maxrange=2),
               "random": dict(chunks=5, sessions=30, steps=40, maxlens=[60, 20, 140]), "budget": 300}
    seq.check(ck, fams, cfg)
