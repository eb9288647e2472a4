from . import core, small

EDITS = {"name", "meta", "flags", "format", "length", "nulls", "offset", "bits", "value", "buffers", "insert", "erase", "resize"}
PARTS = {"add", "addtwo", "pop", "set", "dict", "nodict"}
WHOLE = {"new", "drop", "copy", "assign", "move", "massign", "swap", "cycle", "slice", "peek"}


def harness():
    return core.compile_all({"proxies": [("proxies.cpp", [])]}, True)["proxies"]


def machine(exe, ops, sim_ops=None, **k):
    c = dict({"Roots": {1}, "Ops": ops, "Tmpls": {0, 1}, "Strs": {-1, 1}, "Flags": {0, 5}, "Lens": {0, 1, 3}, "Vals": {7}, "MaxCh": 2, "MaxBits": 6, "Modes": {1}}, **k)
    s = {"Roots": {1, 2}, "Ops": sim_ops or ops, "Tmpls": set(range(7)), "Strs": {-1, 0, 1, 2}, "Flags": set(range(8)), "Lens": {0, 1, 2, 3, 4, 7}, "Vals": {0, 1, 8},
         "MaxCh": 3, "MaxBits": 12, "Modes": {1, 2, 3}}
    return small.Machine("Proxy", exe, c, [0], ["TypeOK", "DumpsBack"], ["Local", "Balance"], sim_constants=s,
                         trace_constants=dict(s, Ops=EDITS | PARTS | WHOLE | {"refuse"}))


def nth(f):
    def g(e):
        for k in ("raw", "prox"):
            for t in e["obs"][k]:
                if t:
                    f(t[0], k)
                    return True
        return False
    return g


def bad_name(e):
    for t in e["obs"]["prox"]:
        if t and t[0]["ch"]:
            t[0]["ch"][-1]["nm"] = 55
            return True


def bad_raw(e):
    for t in e["obs"]["raw"]:
        if t:
            t[0]["len"] += 1
            return True


def bad_free(e):
    e["obs"]["fr"][0] += 1
    return True


CORRUPT = {"child": bad_name, "structure": bad_raw, "release": bad_free}


def run(ck):
    exe = harness()
    ck.log("harness built")
    ck.assumptions = ["formats of four byte integers and floats, and structs; depth up to three",
                      "metadata is text (binary metadata is a known finding)",
                      "the bitmap is edited together with the length, as the arrays do"]
    t = ck.thorough
    small.check(ck, machine(exe, PARTS | {"new", "drop"} | ({"copy"} if t else set()), WHOLE | EDITS | PARTS,
                            Tmpls={1, 2, 3} if t else {1, 2}, MaxCh=2, MaxBits=5),
                CORRUPT, [0, 0], (60, 120, 16) if t else (40, 100, 4), 700 if t else 300)
    texts = {"new", "name", "meta", "flags", "format", "value", "buffers"}
    small.check(ck, machine(exe, texts, WHOLE | PARTS | {"name"}, Tmpls={0, 2} if t else {0}, Strs={-1, 0, 2} if t else {-1, 2}, Modes={1, 3} if t else {1}), CORRUPT, [0, 0],
                (60, 100, 8) if t else (30, 80, 4), 700 if t else 300)
    bitmaps = {"new", "length", "offset", "nulls", "bits", "insert", "erase", "resize"}
    small.check(ck, machine(exe, bitmaps, Tmpls={0, 5} if t else {5}, Lens={0, 1, 2, 3} if t else {0, 1, 2}, MaxBits=5 if t else 4), CORRUPT, [0, 0],
                (0, 1, 0), 700 if t else 300)
