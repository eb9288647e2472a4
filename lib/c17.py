from . import core, small
from .c14 import bump


def run(ck):
    exe = core.compile_all({"pointers": [("pointers.cpp", [])]}, False)["pointers"]
    ck.log("harness built")
    ck.assumptions = ["pointees: a counted value, and a base and a derived class (the base not being its first part)"]
    m = small.Machine("Pointer", exe, {"Vals": {0, 1} if ck.thorough else {1}}, [0], ["TypeOK"], ["Conserved"],
                      sim_constants={"Vals": {0, 1, 2, 3}})
    small.check(ck, m, {"content": bump(["look", 0, 2]), "live": bump(["live"]), "equal": bump(["eq", 0, 1])},
                [-1] * 12, (60, 100, 16) if ck.thorough else (30, 80, 4), 700 if ck.thorough else 300)
