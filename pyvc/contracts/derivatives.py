"""C09, C10: the distributed first and second derivative equal the serial stencil along the first axis, and their adjoint
applications its transpose, for any number of processes, grid, content and sampling."""
from fractions import Fraction
import z3
from ..spec import *
from .. import data as D

F_ = "pylops_mpi.basicoperators.FirstDerivative.MPIFirstDerivative"
S_ = "pylops_mpi.basicoperators.SecondDerivative.MPISecondDerivative"
L_ = "pylops_mpi.LinearOperator.MPILinearOperator"
H, TW, TT = Fraction(1, 2), Fraction(1, 12), Fraction(2, 3)


def stencil(which, kind, edge, order=3):
    """row i of the matrix along the first axis: [(condition(i, N), {offset: coefficient})], first match counts"""
    if which == "first":
        if kind == "forward":
            return [(lambda i, N: i < N - 1, {0: -1, 1: 1})]
        if kind == "backward":
            return [(lambda i, N: i > 0, {-1: -1, 0: 1})]
        if order == 3:
            rows = [(lambda i, N: z3.And(i > 0, i < N - 1), {-1: -H, 1: H})]
            if edge:
                rows += [(lambda i, N: i == 0, {0: -1, 1: 1}), (lambda i, N: i == N - 1, {-1: -1, 0: 1})]
            return rows
        rows = [(lambda i, N: z3.And(i > 1, i < N - 2), {-2: TW, -1: -TT, 1: TT, 2: -TW})]
        if edge:
            rows += [(lambda i, N: i == 0, {0: -1, 1: 1}), (lambda i, N: i == N - 1, {-1: -1, 0: 1}),
                     (lambda i, N: z3.Or(i == 1, i == N - 2), {-1: -H, 1: H})]
        return rows
    if kind == "forward":
        return [(lambda i, N: i < N - 2, {0: 1, 1: -2, 2: 1})]
    if kind == "backward":
        return [(lambda i, N: i > 1, {-2: 1, -1: -2, 0: 1})]
    rows = [(lambda i, N: z3.And(i > 0, i < N - 1), {-1: 1, 0: -2, 1: 1})]
    if edge:
        rows += [(lambda i, N: i == 0, {0: 1, 1: -2, 2: 1}), (lambda i, N: i == N - 1, {-2: 1, -1: -2, 0: 1})]
    return rows


def coefficients(rows, i, N):
    c = ctx()
    for cond, co in rows:
        if c.fork(z3.simplify(cond(i, N))):
            return co
    return {}


def forward_value(rows, X, i, N):
    out = D.Poly()
    for o, co in coefficients(rows, i, N).items():
        out = out + D.const(co) * X(I(norm(i + o)))
    return out


def adjoint_value(rows, X, j, N):
    """sum over the rows i that have an entry in column j"""
    c = ctx()
    out = D.Poly()
    reach_ = max(abs(o) for _, co in rows for o in co)
    for d in range(-reach_, reach_ + 1):
        if not any(-d in co for _, co in rows):
            continue
        i = I(norm(j + d))
        inside = z3.BoolVal(True) if d == 0 else (i >= 0 if d < 0 else i < N)
        if not c.fork(inside):
            continue
        co = coefficients(rows, i, N).get(-d)
        if co is not None:
            out = out + D.const(co) * X(i)
    return out


def operator(which, dims, s, kind, edge, order, dt):
    if which == "first":
        return lib()["pylops_mpi.basicoperators.FirstDerivative"].MPIFirstDerivative(dims, **opts(
            dt == "float64", sampling=(s, 1.0), kind=(kind, "centered"), edge=(edge, False), order=(order, 3), dtype=(dt, "float64")))
    return lib()["pylops_mpi.basicoperators.SecondDerivative"].MPISecondDerivative(dims, **opts(
        dt == "float64", sampling=(s, 1.0), kind=(kind, "centered"), edge=(edge, False), dtype=(dt, "float64")))


def variants():
    for which in ("first", "second"):
        for kind in ("forward", "backward", "centered"):
            for order in ((3, 5) if which == "first" and kind == "centered" else (3,)):
                for edge in ((False, True) if kind == "centered" else (False,)):
                    for mode in ("matvec", "rmatvec"):
                        for nd in (1, 2, 3):
                            for dt in ("float64", "complex128"):
                                if dt == "complex128" and nd != 2:
                                    continue
                                yield which, kind, order, edge, mode, nd, dt, False
    for which in ("first", "second"):
        for mode in ("matvec", "rmatvec"):
            yield which, "centered", 3, False, mode, 2, "float64", True


for which, kind, order, edge, mode, nd, dt, default in variants():
    cls = F_ if which == "first" else S_
    fn = f"{kind}{order if which == 'first' and kind == 'centered' else ''}"
    nm = f"{which} derivative {fn}{' edge' if edge else ''} {mode}[{nd}d,{dt}{',defaults' if default else ''}]"

    @unit(nm, ("C09" if which == "first" else "C10") + " C05", [f"{cls}.__init__", f"{cls}._register_multiplications", f"{cls}._{mode}", f"{cls}._{mode}_{fn}", f"{L_}.{mode}"],
          assumes=("contract of reshaped (units reshaped ...)", "contract of add_ghost_cells (units ghost ...)", "contract of local_split (units split.local, split.sum)"))
    def _(c, which=which, kind=kind, order=order, edge=edge, mode=mode, nd=nd, dt=dt, default=default):
        m = DA()
        N = dim("N0")
        rest = [dim(f"D{j}") for j in range(1, nd)]
        dims = [N] + rest
        lay = Layout.even(N, nd, 0, dims=dims)
        s = D.const(1) if default else D.leaf("s", real=True)
        # shares as large as the stencil needs: every process owns a row, and the grid is as wide as the stencil
        width = {"forward": 2, "backward": 2, "centered": order}[kind] if which == "first" else 3
        c.fact(T.QDIV(N, c.P) >= 1, N >= width)
        need = {"forward": 2, "backward": 2, "centered": order if which == "first" else 3}[kind] + (1 if which == "second" and kind != "centered" else 0)
        with use_split_contract(), use_ghost_contract():
            op = returns("construction", lambda: operator(which, tuple(mk(d) for d in dims), 1.0 if default else SNum(s, "float64"), kind, edge, order, dt))
            total = I(norm(sarr.prod_terms(dims)))
            tuple_is("shape", op.shape, (mk(total), mk(total)))
            holds("element type", sarr.DT(op.dtype) == sarr.DT(dt))
            f = Layout.scatter("x", 1, 0)
            c.fact(I(f.dims[0]) == total)
            xl = Layout([total], 0, f.n, total, f.S)
            real = dt == "float64"
            grid = lambda g: D.leaf("x", [I(norm(I(t))) for t in g], real=real)
            X = Gridded(grid, dims)
            x = make("x", xl, None, dt, fill=False)
            x._local_array._assign(sarr.new_array([I(t) for t in xl.local()], lambda idx: X(xl.gidx(idx)), dt))
            before = x.local_array.snapshot()
            with use_reshape_contract(X):
                y = attempt(lambda: getattr(op, mode)(x))
        unchanged("vector", x.local_array, before)
        if isinstance(y, Raised):
            holds("an error only if the shares are smaller than the stencil", mkb(T.QDIV(N, c.P) < need), {"what": repr(y)})
            return
        reach("return")
        r = c.r
        inner = I(norm(sarr.prod_terms(rest))) if rest else z3.IntVal(1)
        m_ = DA()
        holds("result: distributed array", isinstance(y, m_.DistributedArray))
        tuple_is("result: global shape", y.global_shape, (mk(total),))
        tuple_is("result: local shape", y.local_shape, (mk(I(norm(lay.n(r) * inner))),))
        holds("result: axis and partition", y.axis == 0 and y.partition is m.Partition.SCATTER)
        holds("result: element type", y.dtype == sarr.DT(dt), {"what": str(y.dtype)})
        same_list("result: local shapes", y.local_shapes, SymList(I(c.P), lambda k: (mk(I(norm(lay.n(k) * inner))),)))
        no_alias("result", y.local_array, x.local_array)
        rows = stencil(which, kind, edge, order)
        scale = D.inv(s) if which == "first" else D.inv(s * s)
        g = y.local_array.fn()
        idx = [T.fresh("i") for _ in range(nd)]
        ext = [lay.n(r)] + rest
        conds = [z3.And(0 <= t, t < I(n)) for t, n in zip(idx, ext)]

        def run():
            with c.assuming(*conds):
                if not c.feasible():
                    return None
                got = g((I(norm(sarr.row_major(idx, ext))),))
                i = I(norm(lay.S(r) + idx[0]))
                at = lambda k: grid((k,) + tuple(idx[1:]))
                want = (forward_value if mode == "matvec" else adjoint_value)(rows, at, i, N) * scale
                return eq_status("result: stencil", got, want)
        c.cases(run, idx)


for which in ("first", "second"):
    for mode in ("matvec", "rmatvec"):
        @unit(f"{which} derivative of a replicated vector {mode}", "C09" if which == "first" else "C10",
              [f"{F_ if which == 'first' else S_}._{mode}", "pylops_mpi.DistributedArray.DistributedArray.to_dist"],
              assumes=("contract of reshaped (units reshaped ...)", "contract of add_ghost_cells (units ghost ...)", "contract of local_split (units split.local, split.sum)"))
        def _(c, which=which, mode=mode):
            """a replicated vector gives the same result as a scattered one"""
            m = DA()
            N, D1 = dim("N0"), dim("D1")
            dims = [N, D1]
            lay = Layout.even(N, 2, 0, dims=dims)
            c.fact(T.QDIV(N, c.P) >= 3)
            s = D.leaf("s", real=True)
            total = I(norm(N * D1))
            with use_split_contract(), use_ghost_contract():
                op = operator(which, (mk(N), mk(D1)), SNum(s, "float64"), "forward", False, 3, "float64")
                grid = lambda g: D.leaf("x", [I(norm(I(t))) for t in g], real=True)
                X = Gridded(grid, dims)
                x = make("x", Replicated("x", 1, [total]), fill=False)
                x._local_array._assign(sarr.new_array([total], lambda idx: X(idx), "float64"))
                with use_reshape_contract(X):
                    y = returns(mode, lambda: getattr(op, mode)(x))
            r = c.r
            tuple_is("result: local shape", y.local_shape, (mk(I(norm(lay.n(r) * D1))),))
            rows = stencil(which, "forward", False)
            scale = D.inv(s) if which == "first" else D.inv(s * s)
            g = y.local_array.fn()
            i, j = T.fresh("i"), T.fresh("j")

            def run():
                with c.assuming(0 <= i, i < lay.n(r), 0 <= j, j < D1):
                    if not c.feasible():
                        return None
                    want = (forward_value if mode == "matvec" else adjoint_value)(rows, lambda k: grid((k, j)), I(norm(lay.S(r) + i)), N) * scale
                    return eq_status("result: stencil", g((I(norm(i * D1 + j)),)), want)
            c.cases(run, [i, j])


@unit("derivative kinds", "C09 C10", [f"{F_}._register_multiplications", f"{S_}._register_multiplications"], reach=("raise",))
def _(c):
    must_raise("unknown kind", lambda: operator("first", (mk(dim("N0")),), 1.0, "sideways", False, 3, "float64"))
    must_raise("unknown kind", lambda: operator("second", (mk(dim("N0")),), 1.0, "sideways", False, 3, "float64"))
    for order in (1, 2, 4, 6, 7):
        must_raise("unknown order", lambda: operator("first", (mk(dim("N0")),), 1.0, "centered", False, order, "float64"))
