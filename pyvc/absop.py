"""Abstract linear operators: what a caller may rely on when it is given *some* distributed operator.

Contract of an operator A with matrix entries a(i, j): matvec(x) takes a vector of the operator's length
(otherwise matvec itself rejects it), leaves x as it is and returns a new vector, distributed in a way fixed
by the operator, whose element i is the sum over j of a(i, j) x(j); rmatvec likewise with conj(a(j, i)).
The values of x held by other processes are obtained collectively."""
import z3
from .spec import *
from . import data as D, sarr


class Space:
    """one or several components; component: Layout or Replicated of one dimension"""

    def __init__(self, *lays, stacked=None):
        self.lays = list(lays)
        self.stacked = len(lays) > 1 if stacked is None else stacked

    @property
    def total(self):
        n = z3.IntVal(0)
        for l in self.lays:
            n = n + l.dims[0]
        return I(norm(n))


def partition_of(lay):
    m = DA()
    return getattr(lay, "part", None) or (m.Partition.SCATTER if isinstance(lay, Layout) else m.Partition.BROADCAST)


def vector(name, sp, dt="float64"):
    """a vector of the space holding the leaf `name` (and the list of its components)"""
    m = DA()
    parts = [make(f"{name}{d}", lay, partition_of(lay), dt) for d, lay in enumerate(sp.lays)]
    if not sp.stacked:
        return parts[0], parts
    return m.StackedDistributedArray(parts), parts


def vec_content(name, sp, dt="float64"):
    real = not sarr.is_complex(dt)
    return lambda d, j: D.leaf(f"{name}{d}", [I(norm(I(j)))], real=real)


def components(x):
    return list(x.distarrays) if isinstance(x, DA().StackedDistributedArray) else [x]


def gathered(x):
    """global content of a vector from what the processes hold: [(length term list, j-vars -> Poly)]"""
    c = ctx()
    m = DA()
    out = []
    for comp in components(x):
        if comp.partition is m.Partition.SCATTER:
            at = comp.base_comm._sync("operator", comp.local_array)
            ln = lambda k, at=at: I(at(I(k)).tshape[0])
            base = V.get_base(ln, c.P)
            out.append(("scatter", at, ln, base))
        else:
            a = comp.local_array.snapshot()
            out.append(("replicated", a, None, None))
    return out


def sum_over(g, body):
    """sum over the global index j of body(j, x(j))"""
    kind, at, ln, base = g
    if kind == "replicated":
        return D.bind("sum", [I(at.tshape[0])], lambda vs: body(vs[0], at.fn()((vs[0],))))
    return D.bind("sum", [ctx().P, lambda vs: ln(vs[0])],
                  lambda vs: body(I(norm(I(base.at(vs[0])) + vs[1])), at(vs[0]).fn()((vs[1],))))


class Mat:
    """matrix of an operator as a pair of maps on global contents; content: (component, index) -> Poly"""

    def __init__(self, rows, cols, fwd, adj):
        self.rows, self.cols, self.fwd, self.adj = rows, cols, fwd, adj

    @property
    def H(self):
        return Mat(self.cols, self.rows, self.adj, self.fwd)

    @property
    def C(self):
        cj = lambda f: (lambda X: (lambda d, i, Y=f(lambda e, j: X(e, j).conj()): Y(d, i).conj()))
        return Mat(self.rows, self.cols, cj(self.fwd), cj(self.adj))

    @property
    def T(self):
        return self.H.C

    def __add__(self, o):
        ad = lambda f, g: (lambda X: (lambda d, i, Y=f(X), Z=g(X): Y(d, i) + Z(d, i)))
        return Mat(self.rows, self.cols, ad(self.fwd, o.fwd), ad(self.adj, o.adj))

    def __mul__(self, o):
        return Mat(self.rows, o.cols, lambda X: self.fwd(o.fwd(X)), lambda X: o.adj(self.adj(X)))

    def scale(self, s):
        sc = lambda f, s: (lambda X: (lambda d, i, Y=f(X): s * Y(d, i)))
        return Mat(self.rows, self.cols, sc(self.fwd, s), sc(self.adj, s.conj()))


def entries(name, dt):
    real = not sarr.is_complex(dt)
    return lambda d, i, e, j: D.leaf(f"{name}{d}{e}", [I(norm(I(i))), I(norm(I(j)))], real=real)


def matrix(rows, cols, ent):
    """the Mat of explicit entries ent(row component, i, column component, j)"""
    def times(X, sp, f):
        def Y(d, i):
            out = D.Poly()
            for e, lay in enumerate(sp.lays):
                out = out + D.bind("sum", [lay.dims[0]], lambda vs, e=e: f(d, i, e, vs[0]) * X(e, vs[0]))
            return out
        return Y
    return Mat(rows, cols, lambda X: times(X, cols, ent), lambda X: times(X, rows, lambda d, i, e, j: ent(e, j, d, i).conj()))


def abstract(name, rows, cols, dt="float64", log=None, adjoint=None):
    """(operator object, Mat): an arbitrary operator with the contract above; adjoint: name of the entries of its
    rmatvec where that need not be the adjoint of its matvec"""
    m = DA()
    L = lib()["pylops_mpi.LinearOperator"].MPILinearOperator
    St = lib()["pylops_mpi.StackedLinearOperator"].MPIStackedLinearOperator
    ent = entries(name, dt)
    back = entries(adjoint, dt) if adjoint else lambda d, i, e, j: ent(e, j, d, i).conj()
    base = St if (rows.stacked or cols.stacked) else L

    def apply(x, src, dst, f, what):
        comps = components(x)
        if len(comps) != len(src.lays):
            loader.raise_model(ValueError)
        if log is not None:
            log.append((name, what))
        ins = gathered(x)
        xdt = comps[0].dtype
        odt = sarr.promote(sarr.DT(xdt), sarr.DT(dt))
        outs = []
        for d, lay in enumerate(dst.lays):
            kw = {"local_shapes": lay.lshapes()} if isinstance(lay, Layout) else {}
            y = m.DistributedArray(global_shape=lay.gshape(), partition=partition_of(lay), dtype=odt, **kw)

            def cont(idx, d=d, lay=lay):
                i = lay.gidx(idx)[0]
                p = D.Poly()
                for e, g in enumerate(ins):
                    p = p + sum_over(g, lambda j, v, e=e: f(d, i, e, j) * v)
                return p
            y._local_array._assign(sarr.new_array([I(n) for n in lay.local()], cont, odt))
            outs.append(y)
        return m.StackedDistributedArray(outs) if dst.stacked else outs[0]

    cls = ctx().mem.get(("abstract", base))
    if cls is None:
        class Abstract(base):
            """one class for all operands: some combinations ask for operands of the same type"""

            def __init__(self, name, rows, cols, dt, fwd, adj):
                self.name, self.fwd, self.adj = name, fwd, adj
                base.__init__(self, shape=(mk(rows.total), mk(cols.total)), dtype=sarr.DT(dt))

            def _matvec(self, x):
                return self.fwd(x)

            def _rmatvec(self, x):
                return self.adj(x)
        cls = ctx().mem[("abstract", base)] = Abstract
    op = cls(name, rows, cols, dt, lambda x: apply(x, cols, rows, ent, "forward"),
             lambda x: apply(x, rows, cols, back, "adjoint"))
    a = matrix(rows, cols, ent)
    if adjoint:
        a.adj = matrix(cols, rows, back).fwd
    return op, a


def vector_is(nm, y, sp, want, dt=None):
    """y is the vector of the space with content want(component, index)"""
    m = DA()
    if sp.stacked:
        holds(f"{nm}: stacked", isinstance(y, m.StackedDistributedArray) and len(y.distarrays) == len(sp.lays), {"what": repr(type(y))})
        if not isinstance(y, m.StackedDistributedArray) or len(y.distarrays) != len(sp.lays):
            raise PathEnd()
    else:
        holds(f"{nm}: distributed array", isinstance(y, m.DistributedArray), {"what": repr(type(y))})
        if not isinstance(y, m.DistributedArray):
            raise PathEnd()
    for d, (lay, comp) in enumerate(zip(sp.lays, components(y))):
        t = f"{nm}[{d}]" if sp.stacked else nm
        layout_is(t, comp, lay, partition_of(lay), dt, axis=0)
        array_is(t, comp.local_array, lay.local(), lambda idx, d=d, lay=lay: want(d, lay.gidx(idx)[0]), dt)
