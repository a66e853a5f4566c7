#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]

1. runs every verification unit (contract) of the property on the sources found in the repository,
2. runs the property's run-time assertion sweep (bounded) on the same sources under the real Python,
3. combines both into a verdict, evidence/<property>.json and, if broken, a replay file.

exit 0: held; exit 1 + VIOLATION line: broken."""
import os, sys
os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.hash_randomization == 0:
    os.environ["PYTHONHASHSEED"] = "0"
    if os.environ.get("_CHECK_REEXEC") != "1":
        os.environ["_CHECK_REEXEC"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
import json, time, subprocess, multiprocessing as mp, signal, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
T0 = time.time()


def unit_worker(u, conn, tier):
    """runs in its own process"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    from pyvc import engine
    try:
        engine.TIER = tier
        r = engine.explore(u.name, u.fn, **u.opts)
        out = {"name": u.name, "wall": r.wall, "paths": r.paths, "unsupported": r.unsupported[:5], "tainted": r.tainted[:3],
               "unreached": [x for x in u.reach if x not in r.reached], "trace": r.trace,
               "obls": [(o.name, o.status, o.info, o.backend) for o in r.obls],
               "queries": engine.STATS.queries, "solver_time": engine.STATS.solver_time, "by_backend": engine.STATS.by_backend,
               "solver_unknown": engine.STATS.unknown, "assumptions": sorted(set(r.notes))}
    except BaseException as e:
        out = {"name": u.name, "wall": 0, "paths": 0, "unsupported": [f"{type(e).__name__}: {e}"], "tainted": [], "unreached": [],
               "trace": traceback.format_exc(), "obls": [], "queries": 0, "solver_time": 0.0, "by_backend": {}, "solver_unknown": 0, "assumptions": []}
    try:
        conn.send(out)
    except Exception:
        out["obls"] = [(a, b, repr(i)[:2000] if i else None, d) for a, b, i, d in out["obls"]]
        conn.send(out)
    conn.close()


def run_units(units, tier, workers, deadline, unit_limit, broken=None):
    """broken(): has the bounded sweep already found a failing input? then the open units get one more minute"""
    todo = list(units)
    t0 = time.time()
    live, done = [], []

    def blank(u, why):
        return {"name": u.name, "wall": unit_limit, "paths": 0, "unsupported": [why], "tainted": [], "unreached": [], "trace": None, "obls": [],
                "queries": 0, "solver_time": 0.0, "by_backend": {}, "solver_unknown": 0, "assumptions": []}
    while todo or live:
        if broken is not None and broken():
            deadline, broken = min(deadline, max(time.time(), t0) + 60), None
        while todo and len(live) < workers:
            if time.time() > deadline:
                done += [blank(u, "not started: time is up") for u in todo]
                todo = []
                break
            u = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=unit_worker, args=(u, b, tier), daemon=True)
            p.start()
            b.close()
            live.append((u, p, a, time.time()))
        for it in list(live):
            u, p, a, t = it
            if a.poll(0):
                try:
                    done.append(a.recv())
                except EOFError:
                    done.append(blank(u, "worker died"))
                p.join(5)
                live.remove(it)
            elif not p.is_alive():
                done.append(blank(u, "worker died"))
                live.remove(it)
            elif time.time() - t > unit_limit or time.time() > deadline + 5:
                p.kill()
                done.append(blank(u, "time limit"))
                live.remove(it)
        time.sleep(0.02)
    order = {u.name: i for i, u in enumerate(units)}
    return sorted(done, key=lambda d: order[d["name"]])


def start_sweeps(prop, seconds, seeds):
    env = dict(os.environ, VERIF_REPO=REPO)
    env.pop("PYTHONPATH", None)
    return [subprocess.Popen([PY, os.path.join(HERE, "rac", "driver.py"), "sweep", prop, str(seconds), str(s)], cwd=os.path.join(HERE, "rac"),
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, start_new_session=True) for s in seeds]


def sweep_failed(procs):
    for p in procs:
        if p.poll() is None:
            return False
    for p in procs:
        if not hasattr(p, "answer"):
            p.answer = p.communicate()
    return any('"failures": [{' in p.answer[0] for p in procs)


def collect(procs, timeout):
    out = []
    end = time.time() + timeout
    for p in procs:
        try:
            so, se = p.answer if hasattr(p, "answer") else p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
            so, se = p.communicate()
            out.append({"runs": 0, "kinds": 0, "seconds": timeout, "failures": [], "harness": [["sweep did not end in time", None]]})
            continue
        res = None
        for line in so.splitlines():
            if line.startswith("RESULT "):
                res = json.loads(line[7:])
        if res is None:
            res = {"runs": 0, "kinds": 0, "seconds": 0, "failures": [], "harness": [[f"no result: {se[-800:]}", None]]}
        out.append(res)
    return out


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:") and f"property={prop} " in line:
                out.append(line)
    return out


def start_lemmas():
    """the meta rules about shares, prefix sums and flattened sums, checked by Lean"""
    path = os.path.join(HERE, "lemmas", "Partition.lean")
    try:
        return path, subprocess.Popen(["lean", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/tmp")
    except OSError as e:
        return path, str(e)


def collect_lemmas(started):
    path, p = started
    with open(path) as f:
        names = [l.split()[1] for l in f if l.startswith("theorem ")]
    out = {"file": "lemmas/" + os.path.basename(path), "theorems": names, "back_end": "Lean 4 with Mathlib", "status": "proved", "output": ""}
    if isinstance(p, str):
        return dict(out, status="not checked", output=p)
    try:
        text, _ = p.communicate(timeout=120)
    except subprocess.TimeoutExpired:
        p.kill()
        return dict(out, status="not checked", output="no answer from lean")
    if p.returncode or "sorry" in text:
        return dict(out, status="not proved", output=text[:500])
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    quick = tier == "quick"
    deadline = T0 + (560 if quick else 2400)
    unit_limit = 300 if quick else 1200
    ncpu = os.cpu_count() or 4
    sweep_s = 25 if quick else 240
    nsweep = 2 if quick else 3
    sweeps = start_sweeps(prop, sweep_s, [f"{seed}.{i}" for i in range(nsweep)])

    lemmas = start_lemmas()

    from pyvc import run as R
    load_err = None
    try:
        R.focus(prop)
        units = [u for u in R.units_for(prop) if not u.opts.get("thorough") or not quick]
        for u in units:
            u.opts.pop("thorough", None)
        if not units:
            print(f"no verification unit is registered for {prop}")
            sys.exit(2)
    except SystemExit:
        raise
    except BaseException as e:
        load_err = f"{type(e).__name__}: {e}"
        traceback.print_exc()
        sys.exit(2)
    try:
        from pyvc import loader
        loader.get_loader()
    except BaseException as e:
        # the sources use something the loader does not know: the deductive part has no answer
        load_err = f"{type(e).__name__}: {e}"
    res = []
    if load_err is None:
        res = run_units(units, tier, max(2, ncpu - 1), deadline, unit_limit, broken=lambda: sweep_failed(sweeps))
    if prop == "C19":
        silent = {r["name"] for r in res if not r["obls"] and not r["unsupported"]}     # operations that do not communicate
        res = [r for r in res if r["name"] not in silent]
        units = [u for u in units if u.name not in silent]
    rac = collect(sweeps, sweep_s + 240)

    total = sum(len(r["obls"]) for r in res)
    proved = sum(1 for r in res for o in r["obls"] if o[1] == "proved")
    open_units, refuted, undecided = [], [], []
    if load_err:
        undecided.append({"unit": "*", "obligation": "loading the sources", "why": load_err})
    for r in res:
        bad = False
        for n, st, info, be in r["obls"]:
            if st == "proved":
                continue
            bad = True
            e = {"unit": r["name"], "obligation": n, "status": st, "verifier": info, "backend": be}
            (refuted if st == "refuted" and not r["tainted"] else undecided).append(e)
        for w in r["unsupported"]:
            bad = True
            undecided.append({"unit": r["name"], "obligation": "(symbolic execution)", "why": w})
        if not r["unsupported"]:
            if r["unreached"] and not bad and prop != "C19":
                bad = True
                undecided.append({"unit": r["name"], "obligation": "(reachability)", "why": f"outcome never reached: {r['unreached']}"})
            if not r["obls"]:
                bad = True
                undecided.append({"unit": r["name"], "obligation": "(vacuous)", "why": "no obligation generated"})
        if bad:
            open_units.append(r["name"])

    lemmas = collect_lemmas(lemmas)
    if lemmas["status"] != "proved":
        undecided.append({"unit": "lemmas", "obligation": lemmas["file"], "why": lemmas["output"]})

    fails = [f for x in rac for f in x["failures"]]
    if (refuted or undecided) and not fails:
        # look for a concrete input where the proof does not go through
        extra = 60 if quick else 300
        s2 = start_sweeps(prop, extra, [f"{seed}.x{i}" for i in range(ncpu)])
        rac2 = collect(s2, extra + 120)
        rac += rac2
        fails = [f for x in rac2 for f in x["failures"]]
    harness = [h for x in rac for h in x["harness"]]
    runs = sum(x["runs"] for x in rac)

    violation = None
    if fails:
        violation = {"property": prop, "cfg": fails[0]["cfg"], "what": fails[0]["what"], "failed_obligations": (refuted + undecided)[:20],
                     "how_to_replay": f"{PY} {HERE}/rac/driver.py replay <this file>"}
        tail = ""
    elif refuted:
        violation = {"property": prop, "failed_obligations": refuted[:40], "undecided": undecided[:20],
                     "note": "obligations refuted by the verifier; the bounded search on the real code found no failing input",
                     "how_to_replay": f"cd {HERE} && python3-vt -m pyvc.run -v '{refuted[0]['unit']}'"}
        tail = " no-failing-input-found"

    from pyvc import trust
    unit_of = {u.name: u for u in units}
    functions = sorted({f for u in units for f in u.functions if u.name not in open_units})
    by_backend, byname = {}, {}
    for r in res:
        for n, st, info, be in r["obls"]:
            if st == "proved":
                by_backend[be] = by_backend.get(be, 0) + 1
    qb = {}
    for r in res:
        for k, v in r["by_backend"].items():
            qb[k] = qb.get(k, 0) + v
    complete = not refuted and not undecided
    cov = {
        "obligations": total, "discharged": proved,
        "checker_cmd": f"python3-vt {HERE}/check.py {prop} {tier}   (single unit: cd {HERE} && python3-vt -m pyvc.run -v '<unit>')",
        "trusted_base": trust.TRUSTED + trust.EXTRACTION,
        "explanation": "every obligation of every unit discharged; functions below are proved for all inputs within the stated assumptions" if complete else
        "some units are open: for the functions of those units only the bounded run-time assertion sweep decided (bounded, not proved)",
        "units": [{"unit": r["name"], "functions": list(unit_of[r["name"]].functions), "obligations": len(r["obls"]),
                   "discharged": sum(1 for o in r["obls"] if o[1] == "proved"), "paths": r["paths"], "solver_queries": r["queries"],
                   "solver_time_s": round(r["solver_time"], 2), "wall_s": round(r["wall"], 2), "open": r["name"] in open_units} for r in res],
        "functions_under_contract": functions,
        "obligations_by_back_end": by_backend,
        "solver_queries_by_back_end": qb,
        "solver_time_s": round(sum(r["solver_time"] for r in res), 2),
        "lemmas": lemmas,
        "open_units": open_units,
        "undecided": undecided[:20],
        "bounded_sweep": {"evaluations": runs, "seconds": round(sum(x["seconds"] for x in rac), 1), "distinct_kinds": max([x["kinds"] for x in rac] or [0]),
                          "label": "bounded run-time assertion check of the same property on the real code; never counted as proved",
                          "harness_errors": harness[:5]},
        "evaluations": runs,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof" if complete else "other", "coverage": cov,
          "assumptions": trust.ASSUMPTIONS + trust.PER_PROPERTY.get(prop, []) + sorted({a for u in units for a in u.assumes}),
          "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k[len("known:"):].strip())
    print(f"{prop}: {len(res)} units, {proved}/{total} obligations discharged, {len(open_units)} open units, {runs} bounded runs, {time.time() - T0:.1f} s")
    for e in (refuted + undecided)[:12]:
        print("  open:", e["unit"], "|", e["obligation"], "|", str(e.get("why") or e.get("status"))[:160])
    if harness:
        print("  sweep harness:", str(harness[0][0])[:300])
    if violation:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{prop}.json")
        with open(path, "w") as f:
            json.dump(violation, f, indent=1, default=str)
        print("  " + (violation.get("what") or violation["failed_obligations"][0]["obligation"])[:600])
        print(f"VIOLATION property={prop} replay={path}{tail}")
        sys.exit(1)
    if runs == 0:
        print("the bounded sweep did not run")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
