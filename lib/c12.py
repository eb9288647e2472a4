from . import core, small
from .c14 import bump


def run(ck):
    exe = core.compile_all({"batches": [("batches.cpp", [])]}, True)["batches"]
    ck.log("harness built")
    ck.assumptions = ["columns: integers, strings, lists, dictionary encoded strings, with nulls, some of them slices",
                      "a moved-from batch may only be assigned to or destroyed",
                      "names unique and columns of equal length, as the documentation demands"]
    m = small.Machine("Batch", exe, {"Names": {1, 2, 3} if ck.thorough else {1, 3}, "Kinds": {0, 1} if ck.thorough else {0},
                                     "Seeds": {0}, "Rows": {2}, "MaxCols": 2},
                      [0], ["TypeOK", "Lookup"], ["Independent"],
                      sim_constants={"Names": {0, 1, 2, 3}, "Kinds": {0, 1, 2, 3}, "Seeds": {0, 1, 2}, "Rows": {0, 1, 2, 4}, "MaxCols": 3})
    small.check(ck, m, {"rows": lambda e: e["obs"]["one"]["st"] == 1 and bump(["one", "nr"])(e),
                        "lookup": lambda e: e["obs"]["two"]["st"] == 1 and bump(["two", "at", 2])(e),
                        "source": lambda e: e["obs"]["src"]["names"] and bump(["src", "names", 0])(e),
                        "equal": lambda e: bump(["eq", 0, 1])(e)},
                ([1] + [0] * 11) + [0] * 24, (60, 100, 16) if ck.thorough else (60, 100, 4), 700 if ck.thorough else 300)
