"""Entry point of a worker process (PyPy)."""
import importlib
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import engine  # noqa: E402


def main(argv):
    mode, pid, tier = argv[:3]
    if os.environ.get("MC_RLIMIT_AS"):
        lim = int(os.environ["MC_RLIMIT_AS"])
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(5000)
    prop = importlib.import_module("props." + pid.lower())
    if mode == "run":
        shard, shards, out, progress, budget = int(argv[3]), int(argv[4]), argv[5], argv[6], float(argv[7])
        engine.worker(prop, tier, shard, shards, out, progress, time.time() + budget)
    elif mode == "case":  # print the case at a position (not run)
        space, case = engine.case_at(prop, tier, int(argv[3]), int(argv[4]))
        print("CASE " + json.dumps({"space": space.name, "case": case}))
    elif mode == "replay":
        with open(argv[3]) as fh:
            rep = json.load(fh)
        if hasattr(prop, "setup"):
            prop.setup(tier)
        space = engine.space_named(prop, tier, rep["space"])
        msg = engine.run_case(space, rep["case"], engine.Ctx(None, tier))
        print("REPLAY " + (msg or "held"))
        return 1 if msg else 0
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
