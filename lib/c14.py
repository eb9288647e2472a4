from . import core, small


def bump(path):
    def f(e):
        o = e["obs"]
        for k in path[:-1]:
            o = o[k]
        o[path[-1]] += 1
        return True
    return f


def run(ck):
    exe = core.compile_all({"nullables": [("nullables.cpp", [])]}, False)["nullables"]
    ck.log("harness built")
    ck.assumptions = ["value types int, double, std::string, std::vector<int>; flags bool& and bits of a bitset",
                      "nothing is said about what hides behind a copied null"]
    vals = {0, 1, 2} if ck.thorough else {0, 1}
    m = small.Machine("Nullable", exe, {"Vals": vals}, [0, 1, 2, 3, 4], ["TypeOK", "TotalOrder"], ["OthersKeep"],
                      sim_constants={"Vals": {0, 1, 2}})
    small.check(ck, m, {"flag": bump(["look", 0, 0]), "cmp": bump(["cmp", 1, 2]), "mem": bump(["mem", 0, 1])},
                [-1, 0, -1, 0, 0, 0, 1, 1, 0, 0], (60, 80, 16) if ck.thorough else (30, 60, 4), 700 if ck.thorough else 300, spread=not ck.thorough)
