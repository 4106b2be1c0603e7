"""Concrete replay: runs harnesses on the unpatched package with given inputs.

usage: replay.py TASKS.json OUT.json     (batch, used by the checks)
       replay.py REPLAY.json             (a single reported violation; exit 1 if it reproduces)
"""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from engine import loader  # noqa: E402


LIMIT = [40]


def run_one(h, inputs, ufs):
    from engine.env import ConcEnv
    from engine.watch import Hang, internal_is_gone, time_limit

    env = ConcEnv(inputs, ufs)
    out = {"status": "ok"}
    try:
        with time_limit(LIMIT[0]):
            h(env)
    except Hang as ex:
        out["status"] = "exception"
        out["exception"] = "Hang"
        out["detail"] = str(ex)
        LIMIT[0] = 3
    except ConcEnv.AssumeFailed as a:
        out["status"] = "assume"
        out["detail"] = str(a)
    except Exception as ex:  # noqa: BLE001
        out["status"] = "gap" if internal_is_gone(ex) else "exception"
        out["exception"] = type(ex).__name__
        out["detail"] = str(ex)[:300]
        out["trace"] = traceback.format_exc()[-1500:]
    finally:
        env.close()
    out["failed"] = env.failed
    out["passed"] = env.passed
    out["observed"] = env.observed
    return out


def main():
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    loader.install_concrete()
    spec = json.load(open(sys.argv[1]))
    if "tasks" in spec:
        mod = importlib.import_module("checks." + spec["module"])
        import spey  # noqa: F401

        assert spey.__file__.startswith(loader.SRC), spey.__file__
        logging.disable(logging.CRITICAL)
        hs = {h.name: h for h in mod.harnesses(spec.get("tier", "quick"))}
        res = []
        for t in spec["tasks"]:
            res.append(run_one(hs[t["harness"]], t["inputs"], t["ufs"]))
        json.dump({"results": res, "functions": sorted(loader.FUNCS)}, open(sys.argv[2], "w"))
        return 0
    mod = importlib.import_module("checks." + spec["module"])
    logging.disable(logging.CRITICAL)
    hs = {h.name: h for h in mod.harnesses(spec.get("tier", "quick"))}
    r = run_one(hs[spec["harness"]], spec["inputs"], spec["ufs"])
    print(json.dumps(r, indent=1))
    bad = [f for f in r["failed"]] or (r["status"] == "exception")
    print("REPRODUCED" if bad else "not reproduced")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
