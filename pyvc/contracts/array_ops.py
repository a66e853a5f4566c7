"""C03, C04, C05: element-wise operations, copies, assignments"""
import z3
from ..spec import *
from .. import data as D

P_ = "pylops_mpi.DistributedArray"
A_ = P_ + ".DistributedArray"
SHAPES = ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2))


def variants(nd, ax, tag="", lo=0):
    """(name, layout, partition, axis, mask)"""
    m = DA()
    S, Bc, U = m.Partition.SCATTER, m.Partition.BROADCAST, m.Partition.UNSAFE_BROADCAST
    lay = Layout.scatter("a" + tag, nd, ax, lo)
    rep = Replicated("b" + tag, nd)
    rep.axis = ax
    mk_ = mask_list()
    return [("scatter", lay, S, None), ("scatter+mask", lay, S, mk_), ("broadcast", rep, Bc, None), ("unsafe", rep, U, None), ("broadcast+mask", rep, Bc, mk_)]


def g_(name, lay, dt):
    return content(name, lay, dt)


UNARY = {
    "neg": ("__neg__", lambda a: -a, lambda p: -p),
    "conj": ("conj", lambda a: a.conj(), lambda p: p.conj()),
    "copy": ("copy", lambda a: a.copy(), lambda p: p),
    "zeros_like": ("zeros_like", lambda a: a.zeros_like(), lambda p: D.Poly()),
}
BINARY = {
    "add": ("add __add__", lambda a, b: a + b, lambda p, q: p + q),
    "sub": ("__sub__ add __neg__", lambda a, b: a - b, lambda p, q: p - q),
    "mul": ("multiply __mul__", lambda a, b: a * b, lambda p, q: p * q),
    "add()": ("add", lambda a, b: a.add(b), lambda p, q: p + q),
    "multiply()": ("multiply", lambda a, b: a.multiply(b), lambda p, q: p * q),
}
SCALAR = {
    "mul": ("__mul__ multiply", lambda a, s: a * s, lambda p, s: p * s),
    "rmul": ("__rmul__ multiply", lambda a, s: s * a, lambda p, s: p * s),
    "multiply()": ("multiply", lambda a, s: a.multiply(s), lambda p, s: p * s),
}
INPLACE = {
    "iadd": ("__iadd__ iadd", lambda a, b: a.__iadd__(b), lambda p, q: p + q),
    "isub": ("__isub__ __neg__ iadd", lambda a, b: a.__isub__(b), lambda p, q: p - q),
    "iadd()": ("iadd", lambda a, b: a.iadd(b), lambda p, q: p + q),
}


def fns(s):
    return [f"{A_}.{x}" for x in s.split()] + [f"{A_}.__init__", f"{A_}.__setitem__", f"{A_}._check_local_shapes", f"{A_}.local_shapes"]


def result_ok(nm, res, lay, part, dt, mask, want):
    layout_is(nm, res, lay, part, dt, mask, axis=lay.axis)
    array_is(nm, res.local_array, lay.local(), lambda idx: want(lay.gidx(idx)), dt)


for nd, ax in SHAPES:
    for op, (names, f, h) in UNARY.items():
        for dt in ("float64", "complex128", "float32"):
            if (nd == 3 or dt == "float32") and not (op == "neg" and dt == "float32" and nd == 1) and dt != ("complex128" if op == "conj" else "float64"):
                continue

            @unit(f"{op}[{nd}d,axis{ax},{dt}]", "C04 C05", fns(names))
            def _(c, nd=nd, ax=ax, op=op, f=f, h=h, dt=dt):
                for nm, lay, part, mask in variants(nd, ax):
                    a = make("x", lay, part, dt, mask)
                    before = a.local_array.snapshot()
                    x = g_("x", lay, dt)
                    r = returns(f"{nm} {op}", lambda: f(a))
                    result_ok(f"{nm} {op}", r, lay, part, dt, mask, lambda gi: h(x(gi)))
                    unchanged(f"{nm} {op}: operand", a.local_array, before)
                    layout_is(f"{nm} {op}: operand layout", a, lay, part, dt, mask, axis=lay.axis)
                    no_alias(f"{nm} {op}", r.local_array, a.local_array)
                    holds(f"{nm} {op}: new object", r is not a)

    for op, (names, f, h) in BINARY.items():
        for dt in ("float64", "complex128"):
            if nd == 3 and dt != "float64" or (op.endswith("()") and (nd > 1 or dt != "float64")):
                continue

            @unit(f"binary {op}[{nd}d,axis{ax},{dt}]", "C04 C05", fns(names + " _check_partition_shape _check_mask"))
            def _(c, nd=nd, ax=ax, op=op, f=f, h=h, dt=dt):
                for nm, lay, part, mask in variants(nd, ax):
                    a, b = make("x", lay, part, dt, mask), make("y", lay, part, dt, mask)
                    ba, bb = a.local_array.snapshot(), b.local_array.snapshot()
                    x, y = g_("x", lay, dt), g_("y", lay, dt)
                    r = returns(f"{nm} {op}", lambda: f(a, b))
                    result_ok(f"{nm} {op}", r, lay, part, dt, mask, lambda gi: h(x(gi), y(gi)))
                    unchanged(f"{nm} {op}: left operand", a.local_array, ba)
                    unchanged(f"{nm} {op}: right operand", b.local_array, bb)
                    no_alias(f"{nm} {op}", r.local_array, a.local_array, b.local_array)
                    # same object on both sides
                    r = returns(f"{nm} {op} self", lambda: f(a, a))
                    result_ok(f"{nm} {op} self", r, lay, part, dt, mask, lambda gi: h(x(gi), x(gi)))
                    unchanged(f"{nm} {op} self: operand", a.local_array, ba)
                    no_alias(f"{nm} {op} self", r.local_array, a.local_array)

    for op, (names, f, h) in SCALAR.items():
        for dt in ("float64", "complex128"):
            if nd == 3 and dt != "float64" or (op != "mul" and nd > 1):
                continue

            @unit(f"scalar {op}[{nd}d,axis{ax},{dt}]", "C04 C05", fns(names))
            def _(c, nd=nd, ax=ax, op=op, f=f, h=h, dt=dt):
                s = D.leaf("s", real=(dt == "float64"))
                for nm, lay, part, mask in variants(nd, ax):
                    for sv, sp in ((SNum(s, dt), s), (2, D.const(2)), (-0.5, D.const(-0.5))):
                        a = make("x", lay, part, dt, mask)
                        ba = a.local_array.snapshot()
                        x = g_("x", lay, dt)
                        r = returns(f"{nm} {op}", lambda: f(a, sv))
                        result_ok(f"{nm} {op}", r, lay, part, dt, mask, lambda gi: h(x(gi), sp))
                        unchanged(f"{nm} {op}: operand", a.local_array, ba)
                        no_alias(f"{nm} {op}", r.local_array, a.local_array)

    for op, (names, f, h) in INPLACE.items():
        for dt in ("float64", "complex128"):
            if nd == 3 and dt != "float64" or (op.endswith("()") and (nd > 1 or dt != "float64")):
                continue

            @unit(f"inplace {op}[{nd}d,axis{ax},{dt}]", "C04 C05", fns(names + " _check_partition_shape _check_mask"))
            def _(c, nd=nd, ax=ax, op=op, f=f, h=h, dt=dt):
                for nm, lay, part, mask in variants(nd, ax):
                    a, b = make("x", lay, part, dt, mask), make("y", lay, part, dt, mask)
                    bb = b.local_array.snapshot()
                    x, y = g_("x", lay, dt), g_("y", lay, dt)
                    r = returns(f"{nm} {op}", lambda: f(a, b))
                    holds(f"{nm} {op}: result is the left operand", r is a)
                    result_ok(f"{nm} {op}", a, lay, part, dt, mask, lambda gi: h(x(gi), y(gi)))
                    unchanged(f"{nm} {op}: right operand", b.local_array, bb)
                    no_alias(f"{nm} {op}", a.local_array, b.local_array)
                    # both operands the same object
                    d = make("z", lay, part, dt, mask)
                    z = g_("z", lay, dt)
                    r = returns(f"{nm} {op} self", lambda: f(d, d))
                    result_ok(f"{nm} {op} self", d, lay, part, dt, mask, lambda gi: h(z(gi), z(gi)))

    for dt in ("float64", "complex128"):
        if nd == 3 and dt != "float64":
            continue

        @unit(f"ravel[{nd}d,axis{ax},{dt}]", "C04 C05", fns("ravel"))
        def _(c, nd=nd, ax=ax, dt=dt):
            for nm, lay, part, mask in variants(nd, ax):
                a = make("x", lay, part, dt, mask)
                ba = a.local_array.snapshot()
                x = g_("x", lay, dt)
                r = returns(f"{nm} ravel", lambda: a.ravel())
                m = DA()
                tot = sarr.prod_terms(lay.dims)
                ln = sarr.prod_terms([I(d) for d in lay.local()])
                tuple_is(f"{nm} ravel: global shape", r.global_shape, (mk(tot),))
                tuple_is(f"{nm} ravel: local shape", r.local_shape, (mk(ln),))
                same_list(f"{nm} ravel: local shapes", r.local_shapes, SymList(I(c.P), lambda k: (mk(sarr.prod_terms([I(d) for d in lay.lshape(k)])),)))
                holds(f"{nm} ravel: partition", r.partition is part)
                holds(f"{nm} ravel: axis", r.axis == 0)
                holds(f"{nm} ravel: type", sarr.DT(r.dtype) == sarr.DT(dt))
                if mask is None:
                    holds(f"{nm} ravel: mask", r.mask is None)
                elif r.mask is None:
                    holds(f"{nm} ravel: mask", False)
                else:
                    same_list(f"{nm} ravel: mask", r.mask, mask)
                if nd > 1:
                    # element at the row-major position of a local multi-index
                    ys = [T.fresh("i") for _ in range(nd)]
                    loc = [I(d) for d in lay.local()]
                    conds = []
                    for yv, n in zip(ys, loc):
                        conds += [yv >= 0, yv < n]
                    fl = r.local_array.fn()
                    with c.assuming(*conds):
                        if c.feasible():
                            p = fl((sarr.row_major(ys, loc),))
                            eq_status(f"{nm} ravel: row-major order", p, x(lay.gidx(ys)))
                    int_is(f"{nm} ravel: local length", r.local_array.shape[0], ln)
                    holds(f"{nm} ravel: one-dimensional", r.local_array.ndim == 1)
                else:
                    array_is(f"{nm} ravel", r.local_array, (mk(ln),), lambda idx: x(lay.gidx(idx)), dt)
                unchanged(f"{nm} ravel: operand", a.local_array, ba)
                no_alias(f"{nm} ravel", r.local_array, a.local_array)

    @unit(f"setitem[{nd}d,axis{ax}]", "C03 C04", [f"{A_}.__setitem__", f"{A_}.__getitem__"])
    def _(c, nd=nd, ax=ax):
        """assignments: a replicated array takes the values of process 0, the others those of the caller"""
        m = DA()
        for nm, lay, part, mask in variants(nd, ax):
            a = make("x", lay, part, "float64", mask)
            x = g_("x", lay, "float64")
            # whole array, values differ between the processes
            v = sarr.leaf_array("v", [I(n) for n in lay.local()], "float64", idxf=lambda idx: (c.r,) + tuple(idx))
            src = z3.IntVal(0) if part is m.Partition.BROADCAST else c.r
            nev = len(c.events)
            returns(f"{nm} a[:]=v", lambda: a.__setitem__(slice(None), v))
            array_is(f"{nm} a[:]=v", a.local_array, lay.local(), lambda idx: D.leaf("v", [src] + list(idx)))
            holds(f"{nm} a[:]=v: communication", (len(c.events) == nev) == (part is not m.Partition.BROADCAST), {"what": "messages exchanged" if part is not m.Partition.BROADCAST else "no broadcast"})
            no_alias(f"{nm} a[:]=v", a.local_array, v)
            # scalar
            s = SNum(D.leaf("s", [c.r]))
            returns(f"{nm} a[:]=s", lambda: a.__setitem__(slice(None), s))
            array_is(f"{nm} a[:]=s", a.local_array, lay.local(), lambda idx: D.leaf("s", [src]))

    @unit(f"setitem row[{nd}d,axis{ax}]", "C03 C04", [f"{A_}.__setitem__", f"{A_}.__getitem__"])
    def _(c, nd=nd, ax=ax):
        """assignment of one element or row"""
        m = DA()
        for nm, lay, part, mask in variants(nd, ax, lo=1):
            x = g_("x", lay, "float64")
            src = z3.IntVal(0) if part is m.Partition.BROADCAST else c.r
            a = make("x", lay, part, "float64", mask)
            row = [I(n) for n in lay.local()[1:]]
            w = sarr.leaf_array("w", row, "float64", idxf=lambda idx: (c.r,) + tuple(idx)) if nd > 1 else SNum(D.leaf("w", [c.r]))
            returns(f"{nm} a[0]=w", lambda: a.__setitem__(0, w))
            array_is(f"{nm} a[0]=w", a.local_array, lay.local(),
                     lambda idx: D.leaf("w", [src] + list(idx[1:])) if c.fork(I(idx[0]) == 0) else x(lay.gidx(idx)))
            got = returns(f"{nm} a[0]", lambda: a[0])
            if nd > 1:
                array_is(f"{nm} a[0]", got, tuple(mk(n) for n in row), lambda idx: D.leaf("w", [src] + list(idx)))
            else:
                num_is(f"{nm} a[0]", got, D.leaf("w", [src]))
