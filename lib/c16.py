from . import arrays, c18, core, sess, small
from .c14 import bump


def machine(exe, ops, **k):
    c = dict({"Ops": ops, "MaxBits": 9, "Vals": {0, 7}, "Names": {0, 1, 2, 3}, "MaxKids": 2}, **k)
    s = {"Ops": ALL, "MaxBits": 17, "Vals": {0, 7, 40}, "Names": {0, 1, 2, 3}, "MaxKids": 3}
    return small.Machine("Reject", exe, c, [0], ["TypeOK"], ["Unchanged"], sim_constants=s, trace_constants=s)


ALL = {"bits", "at", "buf", "big", "cols", "nul", "flags", "type", "kid"}
CORRUPT = {"kind": bump(["did", 0]), "buffer": lambda e: (e["obs"]["buf"].append(1), True)[1], "lost": bump(["lost"])}


W = {"new": 16, "badimp": 24, "nomut": 30, "at": 24, "noext": 10, "copy": 4, "slice": 4, "view": 8, "drop": 10, "mut": 4, "ext": 3, "rel": 3, "self": 1, "none": 6, "share": 2, "refer": 2}
ROOTS = ["p", "p", "p", "u", "u"] + sess.ROOTS


def sessions(seed, n=36):
    return sess.walk(seed, n, W, (12, 30), roots=ROOTS, makes=.1, lengths=[0, 1, 3, 9])


def run(ck):
    exe = core.compile_all({"rejects": [("rejects.cpp", [])]}, True)["rejects"]
    ck.log("harness built")
    t = ck.thorough
    zero = [0] * 11
    small.check(ck, machine(exe, {"kid"}), CORRUPT, zero, (60, 120, 16) if t else (30, 100, 4), 700 if t else 300)
    for ops in ({"bits", "at"}, {"buf", "big"}, {"cols"}, {"nul"}, {"flags", "type"}):
        small.check(ck, machine(exe, ops, MaxBits=9 if t else 3), CORRUPT, zero, (0, 1, 0), 700 if t else 300)
    arrays.check(ck, sessions, 160 if t else 12, 700 if t else 300)
    refuse = {"new", "drop", "refuse", "add"}
    small.check(ck, c18.machine(c18.harness(), refuse, refuse | c18.EDITS | c18.PARTS, Tmpls={1, 2, 3, 5, 6} if t else {1, 2, 3, 6}, MaxCh=2, MaxBits=5, Modes={1, 2, 3}), c18.CORRUPT, [0, 0],
                (40, 80, 8) if t else (20, 60, 4), 700 if t else 300)
