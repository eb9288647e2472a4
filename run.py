#!/usr/bin/env python3
"""run.py check <ID> --tier quick|thorough     decides one property
   run.py replay <file>                       shows the commands of a recorded violation again"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core


def main(argv):
    if len(argv) >= 2 and argv[0] == "check":
        tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
        ck = core.Check(argv[1], tier)
        mod = importlib.import_module("lib." + argv[1].lower())
        try:
            mod.run(ck)
        except Exception as e:
            if ck.violations:
                return ck.finish()
            traceback.print_exc()
            print("ERROR: the check of %s could not be completed: %s" % (argv[1], e))
            return 2
        return ck.finish()
    if argv == ["setup"]:
        # nothing is kept between runs: only see that the tools are there
        import shutil
        missing = [t for t in ("g++", "java") if not shutil.which(t)] + [j for j in core.JARS.split(":") if not os.path.exists(j)]
        print("missing: %s" % missing if missing else "tools found")
        return 1 if missing else 0
    if len(argv) == 2 and argv[0] == "replay":
        with open(argv[1]) as f:
            body = json.load(f)
        mod = importlib.import_module("lib." + body["property"].lower())
        if hasattr(mod, "replay"):
            return mod.replay(core.Check(body["property"], "quick"), body)
        print(json.dumps(body, indent=1))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
