"""run units: python3-vt -m pyvc.run [-v] pattern..."""
import sys, fnmatch, importlib, time
from . import engine, spec

MODS = ["array_basic", "array_ops", "ghost", "reduce", "reject", "foreign", "stacked_arrays", "reshaped", "operators", "solvers", "blocks", "derivatives", "laplacian", "fredholm", "mdc", "dottest"]


def load_all():
    for m in MODS:
        importlib.import_module(f"pyvc.contracts.{m}")
    return spec.UNITS


def units_for(prop):
    us = load_all()
    if prop != "C19":
        return [u for u in us if prop in u.props]
    # communication obligations are generated for every unit; the element type does not matter to them
    names = {u.name for u in us}
    skip = ("split.", "reject ", "norm.reject", "operator shapes", "dottest length", "dottest dimensions")
    return [u for u in us if not u.name.startswith(skip) and not ("complex128" in u.name and u.name.replace("complex128", "float64") in names)]


def focus(prop):
    engine.FOCUS = "communication" if prop == "C19" else None


def run_unit(u):
    return engine.explore(u.name, u.fn, **u.opts)


def main():
    pats = [a for a in sys.argv[1:] if not a.startswith("-")] or ["*"]
    verbose = "-v" in sys.argv
    if "-c" in sys.argv:
        engine.FOCUS = "communication"
    for u in load_all():
        if not any(fnmatch.fnmatch(u.name, p.replace("[", "[[]") if "[" in p and "[[]" not in p else p) or p in u.props for p in pats):
            continue
        r = run_unit(u)
        cnt = {}
        for o in r.obls:
            cnt[o.status] = cnt.get(o.status, 0) + 1
        miss = [x for x in u.reach if x not in r.reached]
        print(f"{u.name:40s} {r.wall:6.1f}s paths={r.paths} {cnt} {'UNSUP ' + str(r.unsupported[:2]) if r.unsupported else ''} {'UNREACHED ' + str(miss) if miss else ''} {r.tainted[:2] if r.tainted else ''}", flush=True)
        if verbose:
            if r.trace:
                print(r.trace)
            for o in r.obls:
                if o.status != "proved":
                    print("   ", o.name, o.status, o.info)


if __name__ == "__main__":
    main()
