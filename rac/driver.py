"""python driver.py sweep <prop> <seconds> <seed> [<hints.json>]   -> JSON on stdout
   python driver.py replay <file>                                  -> exit 1 if the case still fails"""
import importlib
import json
import random
import sys
import time
import traceback

import common
from common import Violation

MODS = ["cases_array", "cases_op", "cases_more"]
GEN, RUN = {}, {}
for m in MODS:
    try:
        M = importlib.import_module(m)
    except ModuleNotFoundError as e:
        if e.name != m:
            raise
        continue
    for k, v in vars(M).items():
        if k.startswith("gen_C"):
            GEN[k[4:]] = v
        if k.startswith("run_C"):
            RUN[k[4:]] = v


def one(prop, cfg):
    """None or a description of the failure"""
    cfg = json.loads(json.dumps(cfg))
    try:
        RUN[prop](cfg)
    except Violation as e:
        return str(e)
    except (SystemExit, KeyboardInterrupt):
        raise
    except BaseException as e:  # noqa: BLE001
        return "HARNESS " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + str(traceback.extract_tb(e.__traceback__)[-1])
    return None


def sweep(prop, seconds, seed, known=(), limit=10 ** 9):
    rng = random.Random(f"{prop}:{seed}")
    t0 = time.time()
    n, harness, fails = 0, [], []
    kinds = set()
    while time.time() - t0 < seconds and n < limit:
        cfg = GEN[prop](rng)
        n += 1
        kinds.add(str({k: cfg.get(k) for k in ("P", "op", "what", "kind", "mode", "expr") if k in cfg}))
        d = one(prop, cfg)
        if d is None:
            continue
        if d.startswith("HARNESS"):
            harness.append((d, cfg))
            if len(harness) > 5:
                break
            continue
        if one(prop, cfg) is None:     # a run must be reproducible to count
            harness.append(("HARNESS not reproducible: " + d, cfg))
            continue
        fails.append({"cfg": cfg, "what": d})
        break
    return {"runs": n, "kinds": len(kinds), "seconds": round(time.time() - t0, 2), "failures": fails, "harness": harness[:5]}


if __name__ == "__main__":
    if sys.argv[1] == "sweep":
        r = sweep(sys.argv[2], float(sys.argv[3]), sys.argv[4])
        print("RESULT " + json.dumps(r, default=str))
    else:
        d = json.load(open(sys.argv[2]))
        r = one(d["property"], d["cfg"])
        print(f"property {d['property']}  case {json.dumps(d['cfg'])}")
        print("reproduced: " + r if r else "does not fail")
        sys.exit(1 if r else 0)
