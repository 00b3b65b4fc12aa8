"""python -m engine.replay FILE: run one stored counterexample on the plain code."""

import json
import os
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from . import runner  # noqa: E402


def main():
    d = json.loads(open(sys.argv[1]).read())
    mod = runner.load_check(d["property"])
    scen = [s for s in mod.SCENARIOS if s.name == d["scenario"]][0]
    asg, ufs = runner.unjson(d)
    h, exc = runner.run_concrete(scen, asg, ufs, d.get("tier", "quick"))
    fails = [list(f) for f in h.failed]
    if exc is not None:
        if exc[0] != "Assumption":
            fails.append([f"exception {exc[0]}", exc[1][-1500:]])
    print("REPLAY " + json.dumps(fails))
    for f in fails[:5]:
        print("  fails:", f[0], f[1])
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
