"""python3 tools/plant.py SPEC.py [ids...]: makes planted bugs from a spec file, confirms each one in a scratch copy of /repo
(applies, existing tests pass, demonstration passes without and fails with the change) and keeps it under seeded/<id>/.

A spec file defines BUGS: list of dict(id, prop, edits=[(file, old, new)...], needs, breaks, P, demo)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds on this case
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work HOME=${HOME:-/root} PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
export PYTHONPATH=$PWD PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
timeout -k 5 100 mpiexec --allow-run-as-root --oversubscribe --bind-to none -n @P@ \\
  --mca btl self,vader --mca btl_vader_single_copy_mechanism none /opt/venv/bin/python "$here/demo.py" </dev/null
'''
PRE = '''import sys
import threading
import traceback

import numpy as np
from mpi4py import MPI

import pylops
import pylops_mpi
from pylops_mpi import DistributedArray, StackedDistributedArray, Partition, MPILinearOperator, MPIStackedLinearOperator
from pylops_mpi.DistributedArray import local_split
from pylops_mpi.basicoperators import *

world = MPI.COMM_WORLD
rank, size = world.Get_rank(), world.Get_size()


def close(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, (what, a.shape, b.shape)
    assert np.allclose(a, b, rtol=1e-9, atol=1e-9), (what, a, b)


def fail():
    traceback.print_exc()
    sys.stdout.flush()
    world.Abort(1)


def hang():
    print("no answer: the processes wait for each other", flush=True)
    world.Abort(2)


def demo():
@BODY@

t = threading.Timer(40, hang)
t.daemon = True
t.start()
try:
    demo()
except BaseException:
    fail()
world.Barrier()
t.cancel()
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(copy, work):
    src = open("/opt/vp/mpi/run.py").read().replace('"/repo"', repr(copy)).replace("os.path.dirname(os.path.abspath(__file__))", '"/opt/vp/mpi"')
    r = os.path.join(work, "run.py")
    open(r, "w").write(src)
    env = dict(os.environ, TMPDIR=work, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", HOME="/root")
    run(["/opt/venv/bin/python", r, os.path.join(work, "res.txt")], copy, env=env)
    passed = {l.split(" ", 1)[1].strip() for l in open(os.path.join(work, "res.txt")) if l.startswith("PASS")}
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - passed)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:]
    for b in bugs:
        if ids and b["id"] not in ids:
            continue
        work = tempfile.mkdtemp(prefix="plant")
        copy = os.path.join(work, "repo")
        try:
            shutil.copytree("/repo", copy, symlinks=True)
            d = os.path.join(work, "d")
            os.mkdir(d)
            open(os.path.join(d, "demo.sh"), "w").write(SH.replace("@P@", str(b["P"])))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            body = "\n".join("    " + l if l.strip() else "" for l in b["demo"].strip("\n").splitlines())
            open(os.path.join(d, "demo.py"), "w").write(PRE.replace("@BODY@", body))
            r0 = run([os.path.join(d, "demo.sh")], copy)
            for f, old, new in b["edits"]:
                p = os.path.join(copy, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], f"edit matches {s.count(old)} times: {old[:60]!r}")
                    raise KeyError
                open(p, "w").write(s.replace(old, new))
            diff = run(["git", "diff"], copy).stdout
            r1 = run([os.path.join(d, "demo.sh")], copy)
            if r0.returncode != 0 or r1.returncode == 0:
                print(b["id"], "demo: clean", r0.returncode, "patched", r1.returncode, (r0.stdout if r0.returncode else r1.stdout)[-900:])
                continue
            bad = tests(copy, work)
            if bad:
                print(b["id"], f"{len(bad)} tests fail:", bad[:3])
                continue
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            dst = os.path.join(HERE, "seeded", b["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            print(b["id"], "kept", flush=True)
        except KeyError:
            pass
        finally:
            shutil.rmtree(work, ignore_errors=True)


main()
