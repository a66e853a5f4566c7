"""run all units in parallel, print those that are not fully proved: python3-vt tools/all_units.py [pattern...]"""
import os, sys, time, fnmatch
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
from pyvc import run
pats = sys.argv[1:] or ["*"]
us = [u for u in run.load_all() if any(fnmatch.fnmatch(u.name, p) or p in u.props for p in pats)]
t = time.time()
res = check.run_units(us, "quick", 8, t + 3000, 400)
n = 0
for d in sorted(res, key=lambda d: -d["wall"]):
    bad = [o for o in d["obls"] if o[1] != "proved"]
    n += len(d["obls"])
    if bad or d["unsupported"] or d["unreached"] or d["tainted"]:
        print("BAD", d["name"], f"{d['wall']:.1f}s", d["unsupported"][:1], d["unreached"], d["tainted"], [(o[0], o[1]) for o in bad[:3]])
print("slowest", [(d["name"], round(d["wall"], 1)) for d in sorted(res, key=lambda d: -d["wall"])[:6]])
print(len(res), "units", n, "obligations", round(time.time() - t), "s")
