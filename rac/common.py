"""shared helpers of the concrete runs"""
import contextlib
import io
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [os.path.join(HERE, "fake"), REPO]
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

import numpy as np  # noqa: E402
from mpi4py import MPI  # noqa: E402

np.seterr(all="ignore")
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import pylops  # noqa: E402
import pylops_mpi  # noqa: E402
from pylops_mpi import (DistributedArray, StackedDistributedArray, Partition, MPILinearOperator,  # noqa: E402
                        MPIStackedLinearOperator)
from pylops_mpi.basicoperators import *  # noqa: E402,F401,F403

assert os.path.abspath(pylops_mpi.__file__).startswith(os.path.abspath(REPO)), pylops_mpi.__file__

PARTS = {"S": Partition.SCATTER, "B": Partition.BROADCAST, "U": Partition.UNSAFE_BROADCAST}
RTOL = 1e-8


class Violation(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def close(a, b, msg, rtol=RTOL):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape} instead of {b.shape}")
    if a.size and not np.allclose(a, b, rtol=rtol, atol=rtol * (1 + np.max(np.abs(b[np.isfinite(b)]), initial=0.0)), equal_nan=True):
        raise Violation(f"{msg}: got {np.array2string(a, threshold=40)[:400]} expected {np.array2string(b, threshold=40)[:400]}")


def spmd(P, fn, seed=0, args=()):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        w = MPI.run(P, fn, args=args, seed=seed)
    return w


def describe(w):
    return "; ".join(f"rank {k}: {o[0]} {o[1] if o[0] != 'ok' else ''} {o[2] if o[0] == 'raise' else ''} {o[3][-2:] if o[0] == 'raise' else ''}"
                     for k, o in enumerate(w.outcome) if o[0] != "ok")


def values(w, what="run"):
    """per-rank results; every rank must have ended normally"""
    if any(o[0] != "ok" for o in w.outcome):
        raise Violation(f"{what}: {describe(w)}")
    if w.problems:
        raise Violation(f"{what}: {w.problems}")
    return [o[1] for o in w.outcome]


def checked(P, fn, seed=0, what="run"):
    """fn may itself raise Violation on a rank"""
    w = spmd(P, fn, seed)
    for k, o in enumerate(w.outcome):
        if o[0] == "raise" and o[1] == "Violation":
            raise Violation(f"{what}, rank {k}: {o[2]}")
    return values(w, what)


def any_raised(w):
    return any(o[0] == "raise" for o in w.outcome)


def rank():
    return MPI.COMM_WORLD.Get_rank()


def data(seed, shape, cplx=False, lo=-4, hi=5):
    rng = np.random.default_rng(seed)
    x = rng.integers(lo, hi, size=shape).astype(float)
    if cplx:
        x = x + 1j * rng.integers(lo, hi, size=shape)
    return x


def split(n, P):
    q, m = divmod(n, P)
    return [q + (1 if k < m else 0) for k in range(P)]


def offsets(ls):
    return np.insert(np.cumsum(ls), 0, 0)


def rand_split(rng, n, P, lo=0):
    """random composition of n into P parts >= lo"""
    if n < lo * P:
        return None
    cuts = sorted(rng.randint(0, n - lo * P) for _ in range(P - 1))
    parts = [b - a for a, b in zip([0] + cuts, cuts + [n - lo * P])]
    return [p + lo for p in parts]


def lshapes(shape, axis, parts):
    return [tuple(p if d == axis else s for d, s in enumerate(shape)) for p in parts]


def block(x, axis, parts, k):
    o = offsets(parts)
    sl = [slice(None)] * x.ndim
    sl[axis] = slice(int(o[k]), int(o[k + 1]))
    return x[tuple(sl)]


def scatter(x, axis=0, parts=None, mask=None, comm=None, part="S", dtype=None):
    """DistributedArray filled by hand (does not use to_dist)"""
    comm = comm if comm is not None else MPI.COMM_WORLD
    P, k = comm.Get_size(), comm.Get_rank()
    if part == "S":
        parts_ = parts if parts is not None else split(x.shape[axis], P)
        ls = lshapes(x.shape, axis, parts_)
        d = DistributedArray(global_shape=x.shape, base_comm=comm, axis=axis, mask=mask,
                             local_shapes=ls if parts is not None else None, dtype=dtype or x.dtype)
        d[:] = block(x, axis, parts_, k)
    else:
        d = DistributedArray(global_shape=x.shape, base_comm=comm, axis=axis, mask=mask, partition=PARTS[part],
                             dtype=dtype or x.dtype)
        d[:] = x
    return d


def gather(d):
    """global content of a distributed array without using the code under test"""
    comm = d.base_comm
    if d.partition is not Partition.SCATTER:
        return np.array(d.local_array)
    return np.concatenate(comm.allgather(np.array(d.local_array)), axis=d.axis)


def opt(cfg, **kw):
    """keyword arguments of a call: half of the configurations leave out those that have the documented default value,
    so that the defaults themselves are exercised.  Written opt(cfg, name=(value, default))"""
    drop = cfg.get("seed", 0) % 2 == 0
    return {k: v for k, (v, d) in kw.items() if not (drop and type(v) is type(d) and v == d)}
