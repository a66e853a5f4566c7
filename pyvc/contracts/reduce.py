"""C06 (and C22): dot products and norms"""
import z3
from ..spec import *
from .. import data as D
from .array_ops import A_, SHAPES


def _group(c, mask, k, f):
    """f() if rank k belongs to the group of this process"""
    if mask is None or c.fork(I(mask.fn(k)) == I(mask.fn(c.r))):
        return f()
    return None


def reduce_spec(head, lay, mask, val, axis=None, idx=()):
    """head over the elements held by the group of this process (everything when there is no mask) of val(global index)

    without a mask the reduction runs over the global array; with one, over the ranks of the group and
    the contiguous block of each of them"""
    c = ctx()
    nd = lay.ndim
    over = list(range(nd)) if axis is None else [axis]

    def full(vs):
        it = iter(vs)
        rest = iter(idx)
        return tuple(next(it) if j in over else next(rest) for j in range(nd))
    if mask is None:
        return D.bind(head, [lay.dims[j] for j in over], lambda vs: val(tuple(full(vs))))
    lens = [c.P] + [(lambda vs, j=j: lay.n(vs[0])) if j == lay.axis else lay.dims[j] for j in over]
    if head == "sum":
        def body(vs):
            k = vs[0]
            r = _group(c, mask, k, lambda: val(lay.gidx(full(vs[1:]), k)))
            return D.Poly() if r is None else r
        return D.bind(head, lens, body)
    return _minmax_spec(head, lay, mask, val, lens, full)


def _minmax_spec(head, lay, mask, val, lens, full):
    c = ctx()
    vs, lt = [], []
    for n in lens:
        v = T.fresh("b")
        n = n(list(vs)) if callable(n) else n
        vs.append(v)
        lt.append(I(norm(I(n))))
    g = B(V.values_equal(mask.fn(vs[0]), mask.fn(c.r)))
    conds = [x for v, n in zip(vs, lt) for x in (v >= 0, v < n)]
    with c.assuming(*conds, g):
        body = val(lay.gidx(full(vs[1:]), vs[0]))
    return D._minmax(head, list(zip(vs, lt)), (g,), body)


def call(sp, f):
    with sp():
        return f()


VARIANTS = {0: ("scatter", "scatter+mask", "broadcast", "unsafe", "broadcast+mask"), 1: ("scatter", "scatter+mask"), 2: ("scatter", "scatter+mask")}


def inputs(which, nd, ax, dt, lo=0):
    return [v for v in all_inputs(nd, ax, dt, lo) if v[0] == which]


def all_inputs(nd, ax, dt, lo=0):
    """name, layout of the scattered content, mask, maker of arrays, contract of local_split in force"""
    m = DA()
    c = ctx()
    mk_ = mask_list()
    lay = Layout.scatter("a", nd, ax, lo)
    for nm, mask in (("scatter", None), ("scatter+mask", mk_)):
        yield nm, lay, mask, lambda n, mask=mask: make(n, lay, None, dt, mask), use_split_contract
    if ax == 0:
        lb = Layout.scatter("s", nd, 0, lo)
        rep = Replicated("b", nd, lb.dims)
        for nm, part, mask in (("broadcast", m.Partition.BROADCAST, None), ("unsafe", m.Partition.UNSAFE_BROADCAST, None), ("broadcast+mask", m.Partition.BROADCAST, mk_)):
            yield nm, lb, mask, lambda n, part=part, mask=mask: make(n, rep, part, dt, mask), lambda lb=lb: use_split_layout(lb)


ORDS = {"None": 2, "0": 0, "1": 1, "2": 2, "3": 3, "p": None, "inf": float("inf"), "-inf": float("-inf")}


def norm_spec(o, p, lay, mask, x, axis=None, idx=()):
    one = lambda f: (lambda gi: f(x(gi)))
    if o == "0":
        return reduce_spec("sum", lay, mask, one(D.nonzero), axis, idx)
    if o == "inf":
        return reduce_spec("max", lay, mask, one(D.absv), axis, idx)
    if o == "-inf":
        return reduce_spec("min", lay, mask, one(D.absv), axis, idx)
    q = D.const(ORDS[o]) if o != "p" else D.from_int(p)
    s = reduce_spec("sum", lay, mask, one(lambda v: D.absv(D.power(v, q))), axis, idx)
    return D.power(s, D.inv(q))


RF = [f"{A_}.{x}" for x in ("_allreduce_subcomm", "__init__", "to_dist", "local_array")]

for nd, ax in SHAPES:
  for dt in ("float64", "complex128"):
    for var in VARIANTS[ax]:
        @unit(f"dot {var}[{nd}d,axis{ax},{dt}]", "C06 C05", [f"{A_}.dot"] + RF)
        def _(c, nd=nd, ax=ax, dt=dt, var=var):
            for nm, lay, mask, mkarr, sp in inputs(var, nd, ax, dt):
                a, b = mkarr("x"), mkarr("y")
                ba, bb = a.local_array.snapshot(), b.local_array.snapshot()
                x, y = content("x", lay, dt), content("y", lay, dt)
                r = returns(f"{nm} dot", lambda: call(sp, lambda: a.dot(b)))
                num_is(f"{nm} dot", r, reduce_spec("sum", lay, mask, lambda gi: x(gi) * y(gi)))
                unchanged(f"{nm} dot: left", a.local_array, ba)
                unchanged(f"{nm} dot: right", b.local_array, bb)

        for o in ORDS:
            if nd == 3 and (o in ("None", "2", "0") or dt != "float64") or dt != "float64" and o in ("None", "3"):
                continue

            @unit(f"norm {o} {var}[{nd}d,axis{ax},{dt}]", "C06 C05", [f"{A_}.norm", f"{A_}._compute_vector_norm"] + RF)
            def _(c, nd=nd, ax=ax, dt=dt, o=o, var=var):
                p = dim("p", 1)
                for nm, lay, mask, mkarr, sp in inputs(var, nd, ax, dt, 1 if "inf" in o else 0):
                    a = mkarr("x")
                    ba = a.local_array.snapshot()
                    x = content("x", lay, dt)
                    arg = () if o == "None" else (mk(p) if o == "p" else ORDS[o],)
                    r = returns(f"{nm} norm", lambda: call(sp, lambda: a.norm(*arg)))
                    num_is(f"{nm} norm", scalar_of(r), norm_spec(o, p, lay, mask, x))
                    if nd > 1:
                        r = returns(f"{nm} norm along the axis", lambda: call(sp, lambda: a.norm(*(arg or (None,)), axis=lay.axis)))
                        array_is(f"{nm} norm along the axis", r, [mk(d) for j, d in enumerate(lay.dims) if j != lay.axis],
                                 lambda idx: norm_spec(o, p, lay, mask, x, lay.axis, idx))
                    unchanged(f"{nm} norm: array", a.local_array, ba)


def scalar_of(r):
    """norms of vectors come as scalars or as arrays with a single element"""
    if isinstance(r, SymArr):
        c = ctx()
        n = sarr.prod_terms(r.tshape)
        holds("single element", z3.BoolVal(True) if not r.tshape else n == 1)
        f = r.fn()
        return SNum(f(tuple(z3.IntVal(0) for _ in r.tshape)), r.dtype.name)
    return r


@unit("norm.reject", "C06", [f"{A_}.norm", f"{A_}._compute_vector_norm"], reach=("raise",))
def _(c):
    for nd, ax in SHAPES:
        a = make("x", Layout.scatter("a", nd, ax))
        for o in ("fro", "nuc"):
            must_raise(f"norm {o}", lambda: a.norm(o))
        for other in range(nd):
            if other != ax:
                must_raise("norm along another axis", lambda: a.norm(2, axis=other))
