"""Vocabulary of the contracts: layouts, input arrays, pointwise equality, exceptional outcomes."""
from __future__ import annotations
import os, traceback
import z3
from . import terms as T, data as D, values as V, sarr, smpi, loader, engine
from .terms import I, norm, lit, is_int
from .engine import ctx, Unsupported, PathEnd
from .values import mk, mkb, SInt, SBool, SNum, SymList, TList, B
from .sarr import SymArr, IntArr


def lib():
    return loader.get_loader().mods


def DA():
    return lib()["pylops_mpi.DistributedArray"]


UNITS = []


class Unit:
    def __init__(self, name, props, fn, functions, reach=(), opts=None, assumes=()):
        self.name, self.props, self.fn, self.functions = name, tuple(props), fn, tuple(functions)
        self.reach, self.opts, self.assumes = tuple(reach), dict(opts or {}), tuple(assumes)


def unit(name, props, functions, reach=("return",), assumes=(), **opts):
    props = props.split() if isinstance(props, str) else props
    functions = functions.split() if isinstance(functions, str) else functions

    def deco(f):
        UNITS.append(Unit(name, props, f, functions, reach, opts, assumes))
        return f
    return deco


# ------------------------------------------------------------------ outcomes
class Raised:
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"raised {type(self.e).__name__}"


def genuine(e):
    """does the exception come from the code under verification (or a model of numpy / MPI), not from the machinery?"""
    if getattr(e, "_model", False):
        return True
    tb = traceback.extract_tb(e.__traceback__)
    repo = os.path.join(os.path.realpath(loader.REPO), "pylops_mpi")
    return bool(tb) and os.path.realpath(tb[-1].filename).startswith(repo)


def attempt(thunk):
    try:
        return thunk()
    except (PathEnd, engine.StageStop, Unsupported):
        raise
    except RecursionError:
        raise
    except Exception as e:
        if not genuine(e):
            raise
        ctx().raise_paths.append(type(e).__name__)
        return Raised(e)


def reach(label="return"):
    ctx().mem.setdefault("reached", set()).add(label)


def returns(name, thunk):
    """the call must return normally"""
    r = attempt(thunk)
    if isinstance(r, Raised):
        c = ctx()
        tb = traceback.extract_tb(r.e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb if "pylops_mpi" in f.filename][-3:]
        res = c.sat(c.local_conds(), timeout=c.PROVE_TIMEOUT, want_model=True)
        if res[0] == "unsat":
            raise PathEnd()
        c.record(f"{name}: returns normally", "refuted" if res[0] == "sat" and res[2] else "unknown",
                 {"what": f"{type(r.e).__name__} raised: {r.e}", "at": where, "pc": [str(p)[:200] for p in c.pc], "model": engine.model_str(res[1])}, res[3])
        raise PathEnd()
    reach("return")
    return r


def must_raise(name, thunk):
    r = attempt(thunk)
    c = ctx()
    if isinstance(r, Raised):
        reach("raise")
        c.record(f"{name}: raises", "proved", None, "path")
        return r
    res = c.sat(c.local_conds(), timeout=c.PROVE_TIMEOUT, want_model=True)
    if res[0] == "unsat":
        raise PathEnd()
    c.record(f"{name}: raises", "refuted" if res[0] == "sat" and res[2] else "unknown",
             {"what": "returned normally", "pc": [str(p)[:200] for p in c.pc], "model": engine.model_str(res[1])}, res[3])
    raise PathEnd()


def right_or_raises(name, thunk):
    """exceptional outcomes are allowed"""
    r = attempt(thunk)
    if isinstance(r, Raised):
        reach("raise")
        ctx().record(f"{name}: error instead of a wrong result", "proved", None, "path")
        raise PathEnd()
    reach("return")
    return r


# ------------------------------------------------------------------ dimensions and layouts
def dim(name, lo=1):
    """an integer constant >= lo"""
    c = ctx()
    t = z3.Int(name)
    if ("dim", name) not in c.mem:
        c.mem[("dim", name)] = True
        c.fact(t >= lo)
    return t


def balanced(N, P, k):
    """share of process k when N elements are split evenly"""
    N, P, k = I(N), I(P), I(k)
    return z3.If(k < T.RMOD(N, P), T.QDIV(N, P) + 1, T.QDIV(N, P))


def balanced_prefix(N, P, t):
    N, P, t = I(N), I(P), I(t)
    return t * T.QDIV(N, P) + z3.If(t <= T.RMOD(N, P), t, T.RMOD(N, P))


class Layout:
    """global dims, axis, extent of every process along the axis"""

    def __init__(self, dims, axis, n, N=None, S=None, lo=0):
        self.dims, self.axis, self.n = [I(d) if d is not None else None for d in dims], axis, n
        self.N, self.S = N, S

    @staticmethod
    def scatter(tag, ndim, axis, lo=0, dims=None):
        """arbitrary sizes n(k) >= lo along the axis, arbitrary other dimensions >= 1"""
        c = ctx()
        f = z3.Function("n_" + tag, z3.IntSort(), z3.IntSort())
        if ("lay", tag) not in c.mem:
            c.mem[("lay", tag)] = True
            c.rank_facts.append(lambda k: f(k) >= lo)
            c.rank_terms_decls.add(f.name())
        n = lambda k: f(I(k))
        base = V.get_base(n, c.P)
        ds = list(dims) if dims is not None else [None if j == axis else dim(f"D{j}_{tag}") for j in range(ndim)]
        ds[axis] = I(base.at(c.P))
        return Layout(ds, axis, n, ds[axis], lambda t: I(base.at(t)))

    @staticmethod
    def even(N, ndim=1, axis=0, tag="N", dims=None):
        """the balanced default split"""
        c = ctx()
        n = lambda k: balanced(N, c.P, k)
        base = V.get_base(n, c.P)
        ds = list(dims) if dims is not None else [None if j == axis else dim(f"D{j}_{tag}") for j in range(ndim)]
        ds[axis] = I(N)
        return Layout(ds, axis, n, I(N), lambda t: I(base.at(t)))

    @property
    def ndim(self):
        return len(self.dims)

    def gshape(self):
        return tuple(mk(d) for d in self.dims)

    def lshape(self, k):
        return tuple(mk(self.n(k)) if j == self.axis else mk(d) for j, d in enumerate(self.dims))

    def lshapes(self):
        return SymList(I(ctx().P), lambda k: self.lshape(k))

    def local(self):
        return self.lshape(ctx().r)

    def gidx(self, idx, k=None):
        """global index of a local one"""
        k = ctx().r if k is None else k
        return tuple(I(norm(self.S(k) + I(t))) if j == self.axis else I(t) for j, t in enumerate(idx))


class Replicated:
    def __init__(self, tag, ndim, dims=None):
        self.dims = [I(d) for d in dims] if dims is not None else [dim(f"D{j}_{tag}") for j in range(ndim)]
        self.axis = 0

    @property
    def ndim(self):
        return len(self.dims)

    def gshape(self):
        return tuple(mk(d) for d in self.dims)

    def lshape(self, k):
        return self.gshape()

    def lshapes(self):
        return SymList(I(ctx().P), lambda k: self.gshape())

    def local(self):
        return self.gshape()

    def gidx(self, idx, k=None):
        return tuple(I(t) for t in idx)


def the_comm():
    """communicator of the arrays of this unit"""
    return ctx().mem.get("comm") or loader.WORLD


def on_subcommunicator(c):
    """from here on arrays live on a communicator of P processes; the world is another one, with its own
    rank and size, and taking part in any communication on it is refuted"""
    rw, Pw = z3.Int("r_world"), z3.Int("P_world")
    c.fact(0 <= rw, rw < Pw, Pw >= c.P)
    c.mem["comm"] = smpi.SymComm("SUB")
    c.mem["foreign_world"] = (rw, Pw)


def mask_list(tag="mask"):
    c = ctx()
    f = z3.Function(tag, z3.IntSort(), z3.IntSort())
    c.rank_terms_decls.add(f.name())
    return SymList(I(c.P), lambda k: mk(f(k)))


def flat_leaf(name, n, S, real=True, k=None):
    return lambda idx: D.leaf(name, [I(norm(S + I(idx[0])))], real=real)


def content(name, lay, dt="float64"):
    """global content: index -> Poly"""
    real = not sarr.is_complex(dt)
    return lambda gidx: D.leaf(name, [I(t) for t in gidx], real=real)


def block(name, lay, dt="float64"):
    """local block of the global array called name"""
    real = not sarr.is_complex(dt)
    return sarr.new_array([I(n) for n in lay.local()], lambda idx: D.leaf(name, lay.gidx(idx), real=real), dt)


def make(name, lay, partition=None, dt="float64", mask=None, comm=None, engine="numpy", fill=True):
    """a DistributedArray holding the leaf `name`"""
    m = DA()
    part = partition or (m.Partition.SCATTER if isinstance(lay, Layout) else m.Partition.BROADCAST)
    kw = dict(global_shape=lay.gshape(), partition=part, axis=lay.axis, dtype=sarr.DT(dt), engine=engine)
    if isinstance(lay, Layout):
        kw["local_shapes"] = lay.lshapes()
    if mask is not None:
        kw["mask"] = mask
    if comm is None:
        comm = ctx().mem.get("comm")
    if comm is not None:
        kw["base_comm"] = comm
    a = m.DistributedArray(**kw)
    if fill:
        a._local_array._assign(block(name, lay, dt))
    return a


# ------------------------------------------------------------------ obligations
def eq_status(name, p, q, extra=None):
    """record p == q (polynomials)"""
    c = ctx()
    if engine.FOCUS:
        return True
    st, info = D.prove_eq(p, q)
    if st in ("refuted", "opaque", "unknown"):
        inf = {"got": repr(p)[:500], "want": repr(q)[:500], "pc": [str(x)[:200] for x in c.pc + c.local_conds()]}
        if info:
            inf.update(info)
        if extra:
            inf["note"] = extra
        c.record(name, {"opaque": "unknown"}.get(st, st), inf, "z3")
        return False
    c.record(name, "proved", None, "normal-form/z3")
    return True


def array_is(name, arr, shape, expected, dt=None):
    """pointwise contract: arr has the given shape and value expected(idx) everywhere"""
    c = ctx()
    if engine.FOCUS:
        return True
    if isinstance(arr, SNum):
        arr = sarr.as_array(arr)
    if not isinstance(arr, SymArr):
        c.record(f"{name}: array", "refuted", {"what": f"{type(arr).__name__}"}, "type")
        return False
    if len(arr.tshape) != len(shape):
        c.record(f"{name}: number of dimensions", "refuted", {"what": f"{len(arr.tshape)} != {len(shape)}"}, "type")
        return False
    for j, (a, b) in enumerate(zip(arr.tshape, shape)):
        c.oblige(f"{name}: extent {j}", a == I(b)) if not I(norm(a)).eq(I(norm(I(b)))) else c.record(f"{name}: extent {j}", "proved", None, "syntactic")
    if dt is not None:
        c.record(f"{name}: element type", "proved" if arr.dtype == sarr.DT(dt) else "refuted", {"what": f"{arr.dtype} != {dt}"} if arr.dtype != sarr.DT(dt) else None, "type")
    f = arr.fn()
    xs = [T.fresh("i") for _ in shape]
    conds = []
    for x, n in zip(xs, shape):
        conds += [x >= 0, x < I(n)]

    def run():
        with c.assuming(*conds) if conds else c.assuming(z3.BoolVal(True)):
            if not c.feasible():
                return None
            got = f(tuple(xs))
            want = expected(tuple(xs))
            return eq_status(f"{name}: values", got, want)
    if conds:
        with c.assuming(*conds):
            if not c.feasible():
                c.record(f"{name}: values", "proved", None, "empty")
                return True
    out = c.cases(run, xs) if xs else [((), run())]
    return all(v in (True, None) for _, v in out)


def num_is(name, x, want):
    eq_status(name, SNum.of(x).p, want)


def int_is(name, x, want):
    c = ctx()
    if not isinstance(x, (int, SInt)):
        c.record(name, "refuted", {"what": f"not an integer: {x!r}"[:200]}, "type")
        return
    c.oblige(name, I(x) == I(want))


def tuple_is(name, x, want):
    c = ctx()
    if not isinstance(x, (tuple, list)) or len(x) != len(want):
        c.record(name, "refuted", {"what": f"{x!r} vs {want!r}"[:300]}, "type")
        return
    for j, (a, b) in enumerate(zip(x, want)):
        int_is(f"{name}[{j}]", a, b)


def opts(omit, **kw):
    """keyword arguments of a call, written name=(value, documented default): with ``omit`` those that have the default
    value are left out, so that the contract also speaks about the defaults of the signature"""
    return {k: v for k, (v, d) in kw.items() if not (omit and type(v) is type(d) and v == d)}


def holds(name, cond, info=None):
    """cond: bool / SBool / z3"""
    c = ctx()
    if isinstance(cond, SBool):
        cond = cond.c
    if isinstance(cond, bool):
        c.record(name, "proved" if cond else "refuted", info if not cond else None, "evaluation")
        return cond
    return c.oblige(name, cond, info)


def same_list(name, a, b):
    """two lists of tuples of ints (one per rank) are equal"""
    c = ctx()
    if isinstance(a, TList) and a.sym is not None:
        a = a.sym
    if not isinstance(a, SymList):
        c.record(name, "refuted", {"what": f"not a list over the processes: {type(a).__name__}"}, "type")
        return
    k = T.fresh("k")
    c.oblige(f"{name}: length", a.length == b.length)
    with c.assuming(k >= 0, k < b.length):
        va, vb = a.fn(k), b.fn(k)
        e = V.values_equal(va, vb)
        if e is True:
            c.record(name, "proved", None, "syntactic")
        elif e is False:
            c.record(name, "refuted", {"what": f"{va!r} vs {vb!r}"[:300]}, "type")
        else:
            c.oblige(name, B(e))


def layout_is(name, a, lay, partition, dt=None, mask="any", comm=None, axis=None):
    """attributes of a DistributedArray"""
    m = DA()
    c = ctx()
    if not isinstance(a, m.DistributedArray):
        c.record(f"{name}: type", "refuted", {"what": type(a).__name__}, "type")
        return False
    tuple_is(f"{name}: global shape", a.global_shape, lay.gshape())
    tuple_is(f"{name}: local shape", a.local_shape, lay.local())
    holds(f"{name}: partition", a.partition is partition, {"what": str(a.partition)})
    holds(f"{name}: axis", a.axis == (lay.axis if axis is None else axis), {"what": str(a.axis)})
    if dt is not None:
        holds(f"{name}: element type", sarr.DT(a.dtype) == sarr.DT(dt), {"what": f"{a.dtype} instead of {dt}"})
    if mask is None:
        holds(f"{name}: mask", a.mask is None, {"what": "mask present"})
    elif mask != "any":
        if a.mask is None:
            c.record(f"{name}: mask", "refuted", {"what": "mask lost"}, "type")
        else:
            same_list(f"{name}: mask", a.mask, mask)
    cm = comm if comm is not None else the_comm()
    holds(f"{name}: communicator", a.base_comm is cm, {"what": f"{a.base_comm!r} instead of {cm!r}"})
    return True


def no_alias(name, a, *others):
    """arrays share no storage"""
    def root(x):
        b = x.buf
        while isinstance(b, sarr.AliasBuf):
            b = b.base.buf
        return b
    for o in others:
        holds(f"{name}: own storage", root(a) is not root(o), {"what": "result shares its storage with an operand"})


def snapshot(arr):
    return arr.snapshot()


def unchanged(name, arr, before):
    """the content of arr is still what the snapshot says"""
    f = before.fn()
    array_is(name, arr, before.tshape, lambda idx: f(idx), before.dtype)


# ------------------------------------------------------------------ contract of local_split, used at call sites
def _split_comm(comm):
    if getattr(comm, "foreign", False):
        ctx().record("communicator", "refuted", {"what": "shares computed for the default communicator instead of the one of the array"}, "trace")
        raise PathEnd()


def use_split_contract():
    """calls of local_split are replaced by its contract (which unit split.local proves on the real body)"""
    m = DA()

    def local_split(global_shape, base_comm, partition, axis):
        _split_comm(base_comm)
        if partition in [m.Partition.BROADCAST, m.Partition.UNSAFE_BROADCAST]:
            return tuple(loader.s_tuple(global_shape))
        s = list(global_shape)
        s[axis] = mk(balanced(I(s[axis]), I(base_comm.Get_size()), I(base_comm.Get_rank())))
        return tuple(s)
    return patched(m, "local_split", local_split)


def use_split_layout(lay, where=None):
    """calls of local_split on the extents of `lay` return its shares: all the callers rely on is that
    the shares are non-negative and add up to the extent (proved for the real body by split.local and split.sum)"""
    m = DA()

    def local_split(global_shape, base_comm, partition, axis):
        _split_comm(base_comm)
        gs = tuple(loader.s_tuple(global_shape))
        if partition in [m.Partition.BROADCAST, m.Partition.UNSAFE_BROADCAST]:
            return gs
        c = ctx()
        if not (axis == lay.axis and len(gs) == lay.ndim and c.valid(I(gs[axis]) == I(lay.N)) and c.valid(I(base_comm.Get_size()) == c.P) and c.valid(I(base_comm.Get_rank()) == c.r)):
            raise Unsupported("local_split called with other arguments than the contract expects")
        return tuple(mk(lay.n(c.r)) if j == axis else v for j, v in enumerate(gs))
    return patched(where or m, "local_split", local_split)


class patched:
    def __init__(self, obj, name, val):
        self.o, self.n, self.v = obj, name, val

    def __enter__(self):
        self.old = getattr(self.o, self.n) if not isinstance(self.o, type) else self.o.__dict__[self.n]
        setattr(self.o, self.n, self.v)

    def __exit__(self, *a):
        setattr(self.o, self.n, self.old)
        return False


# ------------------------------------------------------------------ contract of add_ghost_cells, used at call sites
def use_ghost_contract():
    """calls of add_ghost_cells are replaced by its contract (units 'ghost ...' prove it on the real body):
    an error exactly if a neighbour asks for more than this process owns, else the last cells_front values of
    the previous process, the own block, and the first cells_back values of the next process"""
    m = DA()

    def add_ghost_cells(self, cells_front=None, cells_back=None):
        c = ctx()
        ax, r, P = self.axis, c.r, c.P
        at = self.base_comm._sync("ghost", (0 if cells_front is None else cells_front, 0 if cells_back is None else cells_back, self.local_array))
        own = self.local_array.snapshot()
        n = I(own.tshape[ax])
        prv, nxt = I(norm(r - 1)), I(norm(r + 1))
        has_prev, has_next = r > 0, r < P - 1
        with c.assuming(has_next):
            nx = at(nxt) if c.feasible() else None
        with c.assuming(has_prev):
            pv = at(prv) if c.feasible() else None
        short = []
        if nx is not None and cells_front is not None:
            short.append(z3.And(has_next, I(nx[0]) > n))
        if pv is not None and cells_back is not None:
            short.append(z3.And(has_prev, I(pv[1]) > n))
        if short and c.fork(z3.Or(*short)):
            loader.raise_model(ValueError)
        front = back = z3.IntVal(0)
        if pv is not None and cells_front is not None:
            front = I(V.ite_int(has_prev, cells_front, 0))
            c.assume_rank_progress(z3.Implies(has_prev, front <= I(pv[2].tshape[ax])))
        if nx is not None and cells_back is not None:
            back = I(V.ite_int(has_next, cells_back, 0))
            c.assume_rank_progress(z3.Implies(has_next, back <= I(nx[2].tshape[ax])))
        shape = [I(norm(front + n + back)) if j == ax else I(t) for j, t in enumerate(own.tshape)]
        f_own = own.fn()

        def content(idx):
            i = I(idx[ax])
            put = lambda v: tuple(I(norm(v)) if j == ax else I(t) for j, t in enumerate(idx))
            if pv is not None and cells_front is not None and c.fork(i < front):
                return pv[2].fn()(put(I(pv[2].tshape[ax]) - front + i))
            if nx is not None and cells_back is not None and not c.fork(i < front + n):
                return nx[2].fn()(put(i - front - n))
            return f_own(put(i - front))
        return sarr.new_array(shape, content, own.dtype)
    return patched(m.DistributedArray, "add_ghost_cells", add_ghost_cells)


# ------------------------------------------------------------------ contract of the decorator `reshaped`, used at call sites
def holds_content(x, X):
    """does the scattered vector x hold the global content X?  (nothing is recorded)"""
    c = ctx()
    base = V.get_base(lambda k: I(sarr.as_seq(x.local_shapes).at(k)[0]), c.P)
    f = x.local_array.fn()
    i = T.fresh("i")
    ok = []

    def run():
        with c.assuming(0 <= i, i < I(x.local_shape[0])):
            if not c.feasible():
                return True
            return D.prove_eq(f((i,)), X((I(norm(I(base.at(c.r)) + i)),)))[0] == "proved"
    return all(v for _, v in c.cases(run, [i]))


def identify(x, Xs):
    """which of the contents known to the unit does the vector hold?"""
    for X in Xs:
        if len(Xs) == 1 or True:
            if holds_content(x, X):
                return X
    raise Unsupported("an operator is applied to another vector than the contract of the unit expects")


class use_reshape_contract:
    """functions decorated with `reshaped` are called through the contract of the decorator (units 'reshaped ...'
    prove it on the real body): a vector that is not scattered is refused; otherwise the function is called with the
    vector re-aligned to the layout it asks for -- or an error is raised, which the properties using this contract allow --
    and its result is returned flattened. X is the global content of the vector (checked at the call), or the list of
    the contents that may occur."""

    def __init__(self, X):
        self.Xs, self.calls = X if isinstance(X, list) else [X], 0

    def __enter__(self):
        self.old = ctx().mem.get("reshape contract")
        ctx().mem["reshape contract"] = self.call
        return self

    def __exit__(self, *a):
        ctx().mem["reshape contract"] = self.old
        return False

    def call(self, op, f, x, forward, stacking):
        m, c = DA(), ctx()
        self.calls += 1
        c.event(x.base_comm.name, "reshaped", None)
        if x.partition is not m.Partition.SCATTER:
            loader.raise_model(ValueError)
        X = identify(x, self.Xs)
        if stacking:
            shapes = op.local_shapes_m if forward else op.local_shapes_n
            gs = x.global_shape
        else:
            shapes, gs = None, op.dims
        arr = m.DistributedArray(global_shape=gs, local_shapes=shapes, axis=0, engine=x.engine, dtype=x.dtype)
        ex = lambda k: I(sarr.as_seq(arr.local_shapes).at(k)[0])
        ab = V.get_base(ex, c.P)
        dims = [I(d) for d in arr.global_shape]
        holds("re-aligned array: the shares cover the vector", mkb(I(norm(sarr.prod_terms(dims))) == I(x.global_shape[0])))

        def content(idx):
            g = [I(norm(I(ab.at(c.r)) + I(idx[0])))] + [I(t) for t in idx[1:]]
            if isinstance(X, Gridded) and len(dims) == len(X.dims):
                return X.at(g)
            return X((I(norm(sarr.row_major(g, dims))),))
        arr._local_array._assign(sarr.new_array([I(n) for n in arr.local_shape], content, x.dtype))
        y = f(op, arr)
        if len(y.global_shape) > 1:
            y = y.ravel()
        return y


class Gridded:
    """content of a vector that is the row-major flattening of a grid"""

    def __init__(self, grid, dims):
        self.grid, self.dims = grid, [I(d) for d in dims]

    def at(self, g):
        return self.grid(tuple(g))

    def __call__(self, idx):
        return self.grid(tuple(sarr.unflatten(I(idx[0]), self.dims)))
