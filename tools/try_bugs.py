"""apply each kept bug to /repo in turn, run its property's check, undo; prints what caught it.
usage: try_bugs.py [ids...]"""
import json, os, re, subprocess, sys, time
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
claimed = {c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
for i in ids:
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    p = meta["property"]
    if p not in claimed:
        print(f"{i:32s} unclaimed", flush=True)
        continue
    assert not subprocess.run("git -C /repo status --porcelain -uno", shell=True, capture_output=True).stdout
    t = time.time()
    subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
    try:
        r = subprocess.run(f"python3-vt check.py {p} quick", shell=True, cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True, check=True)
    viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    kinds = ("concrete" if any(not v.endswith("found") for v in viol) else "") + (" obligation" if any(v.endswith("found") for v in viol) else "")
    print(f"{i:32s} {p} rc={r.returncode} {kinds or 'MISSED'} {time.time()-t:.0f}s | " + " ".join(r.stdout.split("\n")[-2:])[-150:], flush=True)
