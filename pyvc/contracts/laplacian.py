"""C11: Laplacian and gradient combine the right derivative along each axis.

The second (first) derivative along an axis of extent n is the matrix with entries d_{kind,edge}(n, j, j') divided by the
(squared) sampling: along the first axis it is the distributed operator (its stencil and transpose: units of C09, C10),
along the others the serial PyLops operator acting on the rows of a process."""
import contextlib, inspect, itertools
import z3
from ..spec import *
from .. import data as D
from ..localop import LocalOp

LA_ = "pylops_mpi.basicoperators.Laplacian.MPILaplacian"
GR_ = "pylops_mpi.basicoperators.Gradient.MPIGradient"
L_ = "pylops_mpi.LinearOperator"
B_ = "pylops_mpi.basicoperators.BlockDiag.MPIBlockDiag"
SV_ = "pylops_mpi.basicoperators.VStack.MPIStackedVStack"


def entries(which, kind, edge, order, n, s, dt):
    nm = f"{which}_{kind}_{int(bool(edge))}_{order}"
    sc = D.inv(SNum.of(s).p) if which == "first" else D.inv(SNum.of(s).p * SNum.of(s).p)
    return lambda j, k: D.leaf(nm, [I(norm(I(v))) for v in (n, j, k)], real=True) * sc


class GridOp(LocalOp):
    """serial derivative along one axis of a grid, acting on the flattened grid"""

    def __init__(self, dims, axis, ent, dt, swap=False):
        self.dims_, self.axis = [I(d) for d in dims], axis
        total = I(norm(sarr.prod_terms(self.dims_)))
        super().__init__(total, total, ent, dt)
        self.dims = self.dimsd = tuple(dims)

    def _grid(self, x, f):
        if x.ndim != 1 or not sarr.dim_eq(x.tshape[0], self.cols):
            loader.raise_model(ValueError)
        g = x.snapshot().reshape(tuple(mk(d) for d in self.dims_)).fn()
        a = self.axis

        def cont(idx):
            put = lambda v: tuple(v if j == a else I(t) for j, t in enumerate(idx))
            return D.bind("sum", [self.dims_[a]], lambda v: f(idx[a], v[0]) * g(put(v[0])))
        return sarr.new_array(self.dims_, cont, sarr.promote(self.dtype, x.dtype)).ravel()

    def matvec(self, x):
        return self._grid(x, self.ent)

    def rmatvec(self, x):
        return self._grid(x, lambda i, j: self.ent(j, i).conj())

    _matvec, _rmatvec = matvec, rmatvec


def serial(which):
    """the serial PyLops derivative: documented signature and defaults"""
    def make(dims, axis=-1, sampling=1.0, kind="centered", edge=False, order=3, dtype="float64", name=None):
        dims = tuple(sarr.as_seq(dims))
        axis = loader.normalize_axis_index(axis, len(dims))
        return GridOp(dims, axis, entries(which, kind, edge, order, dims[axis], sampling, dtype), dtype)
    return make


def distributed(which, real, Xs, lay):
    """contract of the distributed derivative (units of C09 and C10): the same matrix along the first axis of the grid,
    its transpose in adjoint mode; results are flat, with the rows of every process in row-major order"""
    L = lib()[L_].MPILinearOperator
    sig = inspect.signature(real.__init__)

    class Contract(L):
        def __init__(self, *a, **k):
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            p = b.arguments
            self.dims = tuple(sarr.as_seq(p["dims"])) if not is_scalar(p["dims"]) else (p["dims"],)
            if p["kind"] not in ("forward", "backward", "centered"):
                loader.raise_model(NotImplementedError)
            d = [I(t) for t in self.dims]
            total = mk(I(norm(sarr.prod_terms(d))))
            self.ent = entries(which, p["kind"], p["edge"], p.get("order", 3), d[0], p["sampling"], p["dtype"])
            L.__init__(self, shape=(total, total), dtype=sarr.DT(p["dtype"]), base_comm=p["base_comm"])

        def apply(self, x, ent):
            m, c = DA(), ctx()
            if x.partition is not m.Partition.SCATTER:
                raise Unsupported("derivative of a replicated vector")
            X = identify(x, Xs)
            d = [I(t) for t in self.dims]
            with c.assuming(z3.BoolVal(True)):
                for a, b in zip(d, lay.dims):
                    if len(d) != len(lay.dims) or not c.valid(a == b):
                        raise Unsupported("derivative on another grid than the contract of the unit expects")
            inner = I(norm(sarr.prod_terms(d[1:]))) if len(d) > 1 else z3.IntVal(1)
            y = m.DistributedArray(global_shape=self.shape[0], local_shapes=SymList(I(c.P), lambda k: (mk(I(norm(lay.n(k) * inner))),)), dtype=self.dtype)

            def cont(idx):
                g = lay.gidx(tuple(idx))
                return D.bind("sum", [d[0]], lambda v: ent(g[0], v[0]) * X.at((v[0],) + tuple(g[1:])))
            y._local_array._assign(sarr.new_array([I(t) for t in lay.local()], cont, self.dtype).ravel())
            return y

        def _matvec(self, x):
            return self.apply(x, self.ent)

        def _rmatvec(self, x):
            return self.apply(x, lambda i, j: self.ent(j, i))
    return Contract


def is_scalar(v):
    return isinstance(v, (int, SInt))


def stubs(name, which, Xs, lay):
    m = lib()[name]
    D1, D2 = ("FirstDerivative", "MPIFirstDerivative") if which == "first" else ("SecondDerivative", "MPISecondDerivative")
    return both(patched(m, D1, serial(which)), patched(m, D2, distributed(which, getattr(m, D2), Xs, lay)), use_split_layout(lay, m))


@contextlib.contextmanager
def both(*ps):
    with contextlib.ExitStack() as st:
        for p in ps:
            st.enter_context(p)
        yield


def setting(nd, dt, names):
    """grid, its default layout (any non-negative shares that add up to the extent: what local_split guarantees), and for
    every name a vector of arbitrary split"""
    c = ctx()
    dims = [None] + [dim(f"D{j}") for j in range(1, nd)]
    lay = Layout.scatter("grid", nd, 0, dims=dims)
    dims = [I(d) for d in lay.dims]
    c.fact(dims[0] >= 1)
    total = I(norm(sarr.prod_terms(dims)))
    real = dt == "float64"
    out = []
    for name in names:
        f = Layout.scatter(name, 1, 0)
        c.fact(I(f.dims[0]) == total)
        xl = Layout([total], 0, f.n, total, f.S)
        X = Gridded(lambda g, name=name: D.leaf(name, [I(norm(I(t))) for t in g], real=real), dims)
        x = make(name, xl, None, dt, fill=False)
        x._local_array._assign(sarr.new_array([I(t) for t in xl.local()], lambda idx, X=X, xl=xl: X(xl.gidx(idx)), dt))
        out.append((x, X))
    return dims, lay, total, out


def along(ent, X, dims, a, g, adjoint):
    put = lambda v: tuple(v if j == a else I(t) for j, t in enumerate(g))
    return D.bind("sum", [dims[a]], lambda v: (ent(v[0], g[a]) if adjoint else ent(g[a], v[0])) * X.at(put(v[0])))


def flat_result(nm, y, dims, lay, total, want, dt):
    m, c = DA(), ctx()
    r, nd = c.r, len(dims)
    inner = I(norm(sarr.prod_terms(dims[1:]))) if nd > 1 else z3.IntVal(1)
    holds(f"{nm}: distributed array", isinstance(y, m.DistributedArray))
    if not isinstance(y, m.DistributedArray):
        return
    tuple_is(f"{nm}: global shape", y.global_shape, (mk(total),))
    tuple_is(f"{nm}: local shape", y.local_shape, (mk(I(norm(lay.n(r) * inner))),))
    holds(f"{nm}: axis and partition", y.axis == 0 and y.partition is m.Partition.SCATTER)
    holds(f"{nm}: element type", y.dtype == sarr.DT(dt), {"what": str(y.dtype)})
    f = y.local_array.fn()
    idx = [T.fresh("i") for _ in range(nd)]
    ext = [lay.n(r)] + dims[1:]

    def run():
        with c.assuming(*[z3.And(0 <= t, t < I(n)) for t, n in zip(idx, ext)]):
            if not c.feasible():
                return None
            return eq_status(f"{nm}: values", f((I(norm(sarr.row_major(idx, ext))),)), want(lay.gidx(tuple(idx))))
    c.cases(run, idx)


def axes_choices(nd):
    out = []
    for n in range(1, nd + 1):
        for p in itertools.permutations(range(nd), n):
            out.append(p)
    neg = [tuple(a - nd if j % 2 else a for j, a in enumerate(p)) for p in out if len(p) == nd][:2] + [(-nd,), (-1,)]
    return out + neg


ASSUME = ("contract of reshaped (units reshaped ...)", "contract of the distributed derivatives (units of C09, C10)", "serial PyLops derivatives", "contract of local_split (units split.local, split.sum)")

for nd in (2, 3):
    for axes in axes_choices(nd) + ["default"]:
        for kind, edge, dt in (("centered", False, "float64"), ("centered", True, "complex128"), ("forward", False, "float64"), ("backward", True, "float64")):
            if axes == "default" and (kind != "centered" or edge):
                continue
            if kind != "centered" and len(axes) != nd:
                continue
            if dt == "complex128" and nd == 3 and len(axes) == 2:
                continue

            @unit(f"laplacian axes {axes} {kind}{' edge' if edge else ''}[{nd}d,{dt}]", "C11 C05",
                  [f"{LA_}.__init__", f"{LA_}._calc_l2op", f"{LA_}._matvec", f"{LA_}._rmatvec", f"{B_}.__init__", f"{B_}._matvec", f"{B_}._rmatvec",
                   f"{L_}._ScaledLinearOperator._matvec", f"{L_}._SumLinearOperator._matvec", f"{L_}._SumLinearOperator._rmatvec", f"{L_}._SumLinearOperator._adjoint"], assumes=ASSUME)
            def _(c, nd=nd, axes=axes, kind=kind, edge=edge, dt=dt):
                dims, lay, total, [(x, X)] = setting(nd, dt, ["x"])
                default = axes == "default"
                if default:
                    axes = (-2, -1)
                w = [D.const(1) if default else D.leaf(f"w{j}", real=True) for j in range(len(axes))]
                s = [D.const(1) if default else D.leaf(f"s{j}", real=True) for j in range(len(axes))]
                given = {} if default else dict(axes=axes, weights=tuple(SNum(p, "float64") for p in w), sampling=tuple(SNum(p, "float64") for p in s))
                sub = stubs("pylops_mpi.basicoperators.Laplacian", "second", [X], lay)
                before = x.local_array.snapshot()
                with sub, use_reshape_contract(X):
                    op = returns("construction", lambda: lib()["pylops_mpi.basicoperators.Laplacian"].MPILaplacian(
                        tuple(mk(d) for d in dims), **given, **opts(dt == "float64", edge=(edge, False), kind=(kind, "centered"), dtype=(dt, "float64"))))
                    tuple_is("shape", op.shape, (mk(total), mk(total)))
                    holds("element type", sarr.DT(op.dtype) == sarr.DT(dt))
                    for mode in ("matvec", "rmatvec"):
                        y = returns(mode, lambda: getattr(op, mode)(x))

                        def want(g):
                            out = D.Poly()
                            for j, a in enumerate(axes):
                                a = a % nd
                                ent = entries("second", kind if j == 0 else "centered", edge, 3, dims[a], SNum(s[j], "float64"), dt)
                                out = out + w[j] * along(ent, X, dims, a, g, mode == "rmatvec")
                            return out
                        flat_result(mode, y, dims, lay, total, want, dt)
                        unchanged(f"vector after {mode}", x.local_array, before)
                        no_alias(mode, y.local_array, x.local_array)


for nd in (1, 2, 3):
    for kind, edge, dt in (("centered", False, "float64"), ("centered", True, "complex128"), ("forward", False, "float64"), ("backward", True, "float64")):
        for samp in ("per axis", "common", "default"):
            if samp == "default" and (kind != "centered" or edge):
                continue

            @unit(f"gradient {kind}{' edge' if edge else ''} {samp}[{nd}d,{dt}]", "C11 C05",
                  [f"{GR_}.__init__", f"{GR_}._calc_stack_op", f"{GR_}._matvec", f"{GR_}._rmatvec", f"{SV_}.__init__", f"{SV_}._matvec", f"{SV_}._rmatvec", f"{B_}.__init__", f"{B_}._matvec", f"{B_}._rmatvec"],
                  assumes=ASSUME)
            def _(c, nd=nd, kind=kind, edge=edge, dt=dt, samp=samp):
                m = DA()
                dims, lay, total, vecs = setting(nd, dt, ["x"] + [f"u{j}" for j in range(nd)])
                x, X = vecs[0]
                us = vecs[1:]
                s = [D.const(1) if samp == "default" else D.leaf("s" if samp == "common" else f"s{j}", real=True) for j in range(nd)]
                sm = 1 if samp == "default" else SNum(s[0], "float64") if samp == "common" else tuple(SNum(p, "float64") for p in s)
                Xs = [X] + [U for _, U in us]
                sub = stubs("pylops_mpi.basicoperators.Gradient", "first", Xs, lay)
                snaps = [v.local_array.snapshot() for v, _ in vecs]
                with sub, use_reshape_contract(Xs):
                    op = returns("construction", lambda: lib()["pylops_mpi.basicoperators.Gradient"].MPIGradient(
                        tuple(mk(d) for d in dims), **opts(dt == "float64", sampling=(sm, 1), edge=(edge, False), kind=(kind, "centered"), dtype=(dt, "float64"))))
                    tuple_is("shape", op.shape, (mk(I(norm(nd * total))), mk(total)))
                    holds("element type", sarr.DT(op.dtype) == sarr.DT(dt))
                    ents = [entries("first", kind, edge, 3, dims[a], SNum(s[a], "float64"), dt) for a in range(nd)]
                    y = returns("matvec", lambda: op.matvec(x))
                    holds("one component per axis", isinstance(y, m.StackedDistributedArray) and len(y.distarrays) == nd)
                    for a, comp in enumerate(y.distarrays):
                        flat_result(f"component {a}", comp, dims, lay, total, lambda g, a=a: along(ents[a], X, dims, a, g, False), dt)
                    z = returns("rmatvec", lambda: op.rmatvec(m.StackedDistributedArray([u for u, _ in us])))

                    def want(g):
                        out = D.Poly()
                        for a in range(nd):
                            out = out + along(ents[a], us[a][1], dims, a, g, True)
                        return out
                    flat_result("rmatvec", z, dims, lay, total, want, dt)
                for (v, _), b in zip(vecs, snaps):
                    unchanged("vector", v.local_array, b)


@unit("laplacian arguments", "C11 C21", [f"{LA_}.__init__"], reach=("raise",))
def _(c):
    """as many weights and sampling steps as axes, axes within the grid"""
    mkop = lambda **k: lib()["pylops_mpi.basicoperators.Laplacian"].MPILaplacian((mk(dim("D0")), mk(dim("D1"))), **k)
    must_raise("weights", lambda: mkop(axes=(0, 1), weights=(1.0,), sampling=(1.0, 1.0)))
    must_raise("sampling", lambda: mkop(axes=(0, 1), weights=(1.0, 1.0), sampling=(1.0, 1.0, 1.0)))
    must_raise("axes", lambda: mkop(axes=(0, 2)))
    must_raise("axes", lambda: mkop(axes=(-3, 0)))
