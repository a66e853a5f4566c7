"""C12: block-diagonal, vertical and horizontal stacks of the operators every process supplies equal the block matrices.

Process k supplies L(k) >= 1 operators; operator t has R(k,t) x C(k,t) entries A(k,t,i,j). The number of operators, their
shapes and entries are symbolic; the loops over the operators are summarised by one generic iteration."""
import z3
from ..spec import *
from ..localop import LocalOp
from .. import data as D

B_ = "pylops_mpi.basicoperators.BlockDiag.MPIBlockDiag"
VS_ = "pylops_mpi.basicoperators.VStack.MPIVStack"
HS_ = "pylops_mpi.basicoperators.HStack.MPIHStack"
L_ = "pylops_mpi.LinearOperator"


def mod(n):
    return lib()["pylops_mpi.basicoperators." + n]


class Blocks:
    """the operators of all the processes; swap: rows and columns change places in the shapes"""

    def __init__(self, dt, rows=None, cols=None, tag=""):
        c = ctx()
        Z = z3.IntSort()
        self.dt = dt
        self.Lf = z3.Function("L" + tag, Z, Z)
        Rf, Cf = z3.Function("R" + tag, Z, Z, Z), z3.Function("C" + tag, Z, Z, Z)
        c.rank_terms_decls.add(self.Lf.name())
        c.app_schemas.setdefault(self.Lf.name(), []).append(lambda k: [self.Lf(k) >= 1])
        for f in (Rf, Cf):
            c.app_schemas.setdefault(f.name(), []).append(lambda k, t, f=f: [f(k, t) >= 1])
        self.L = lambda k: self.Lf(I(k))
        self.R = (lambda k, t: I(rows)) if rows is not None else (lambda k, t: Rf(I(k), I(t)))
        self.C = (lambda k, t: I(cols)) if cols is not None else (lambda k, t: Cf(I(k), I(t)))
        self.name = "A" + tag
        real = not sarr.is_complex(dt)
        self.A = lambda k, t, i, j: D.leaf(self.name, [I(norm(I(v))) for v in (k, t, i, j)], real=real)

    def ops(self):
        """the list on this process"""
        r = ctx().r
        return SymList(I(self.L(r)), lambda t: self.op(r, t))

    def op(self, k, t):
        k, t = I(k), I(t)
        return LocalOp(self.R(k, t), self.C(k, t), lambda i, j: self.A(k, t, i, j), self.dt)

    def pre(self, what, k, t):
        """first row (column) of operator t among those of process k"""
        f = {"R": self.R, "C": self.C}[what]
        return I(V.prefix_at(lambda u: f(k, u), self.L(k), I(t)))

    def layout(self, what, N=None):
        n = lambda k: I(norm(self.pre(what, k, self.L(k))))
        base = V.get_base(n, ctx().P)
        N = I(norm(I(base.at(ctx().P))))
        return Layout([N], 0, n, N, lambda t: I(base.at(t)))


def any_split(tag, N):
    lay = Layout.scatter(tag, 1, 0)
    ctx().fact(I(lay.dims[0]) == I(N))
    return Layout([I(N)], 0, lay.n, I(N), lay.S)


def block_rows(nm, y, bl, lay, rows, want, dt):
    """in the local array of y, the rows of any operator t hold want(t, i)"""
    m, c = DA(), ctx()
    layout_is(nm, y, lay, m.Partition.SCATTER, dt, axis=0)
    r = c.r
    t, i = T.fresh("t"), T.fresh("i")
    f = y.local_array.fn()
    n = bl.R(r, t) if rows == "R" else bl.C(r, t)
    with c.assuming(0 <= t, t < bl.L(r), 0 <= i, i < n):
        if not c.feasible():
            return
        c.mem.setdefault("locate", []).append(t)
        got = f((I(norm(bl.pre(rows, r, t) + i)),))
        eq_status(f"{nm}: rows of any operator", got, want(t, i))


for mode in ("matvec", "rmatvec"):
    for dt in ("float64", "complex128"):
        @unit(f"block diagonal {mode}[{dt}]", "C12 C05", [f"{B_}.__init__", f"{B_}._{mode}", f"{L_}.MPILinearOperator.{mode}"],
              assumes=("contract of reshaped (units reshaped ...)", "contract of the local operators (module localop)"))
        def _(c, mode=mode, dt=dt):
            m = DA()
            bl = Blocks(dt)
            op = returns("construction", lambda: mod("BlockDiag").MPIBlockDiag(bl.ops()))
            rows, cols = bl.layout("R"), bl.layout("C")
            tuple_is("shape", op.shape, (mk(rows.N), mk(cols.N)))
            holds("element type", sarr.DT(op.dtype) == sarr.DT(dt))
            src, dst, a, b = (cols, rows, "C", "R") if mode == "matvec" else (rows, cols, "R", "C")
            xl = any_split("x", src.N)
            x = make("x", xl, None, dt)
            before = x.local_array.snapshot()
            X = content("x", xl, dt)
            with use_reshape_contract(X):
                y = returns(mode, lambda: getattr(op, mode)(x))
            unchanged("vector", x.local_array, before)
            r = c.r

            def want(t, i):
                off = lambda j: (I(norm(src.S(r) + bl.pre(a, r, t) + j)),)
                if mode == "matvec":
                    return D.bind("sum", [bl.C(r, t)], lambda v: bl.A(r, t, i, v[0]) * X(off(v[0])))
                return D.bind("sum", [bl.R(r, t)], lambda v: bl.A(r, t, v[0], i).conj() * X(off(v[0])))
            block_rows(mode, y, bl, dst, b, want, dt)
            no_alias("result", y.local_array, x.local_array)


def stacked_up(y, dt, want, n):
    m = DA()
    layout_is("result", y, Replicated("res", 1, [n]), m.Partition.BROADCAST, dt, axis=0)
    array_is("result", y.local_array, (mk(I(n)),), want, dt)


for which in ("VStack", "HStack"):
    for mode in ("matvec", "rmatvec"):
        for part in (("BROADCAST", "UNSAFE_BROADCAST") if (which == "VStack") == (mode == "matvec") else ("SCATTER",)):
            for dt in ("float64", "complex128"):
                if part == "UNSAFE_BROADCAST" and dt == "float64":
                    continue

                @unit(f"{which} {mode}[{part},{dt}]", "C12 C05", [f"{VS_}.__init__", f"{VS_}._matvec", f"{VS_}._rmatvec", f"{L_}.MPILinearOperator.{mode}"] +
                      ([f"{HS_}.__init__", f"{HS_}._{mode}", f"{L_}._AdjointLinearOperator._{mode}"] if which == "HStack" else []),
                      assumes=("contract of reshaped (units reshaped ...)", "contract of the local operators (module localop)"))
                def _(c, which=which, mode=mode, part=part, dt=dt):
                    m = DA()
                    n = dim("N")
                    bl = Blocks(dt, cols=n) if which == "VStack" else Blocks(dt, rows=n)
                    op = returns("construction", lambda: getattr(mod(which), "MPI" + which)(bl.ops()))
                    lay = bl.layout("R" if which == "VStack" else "C")
                    tuple_is("shape", op.shape, (mk(lay.N), mk(n)) if which == "VStack" else (mk(n), mk(lay.N)))
                    holds("element type", sarr.DT(op.dtype) == sarr.DT(dt))
                    if part == "SCATTER":
                        xl = any_split("x", lay.N)
                        x = make("x", xl, None, dt)
                    else:
                        xl = Replicated("x", 1, [n])
                        x = make("x", xl, getattr(m.Partition, part), dt)
                    before = x.local_array.snapshot()
                    X = content("x", xl, dt)
                    with use_reshape_contract(X):
                        y = returns(mode, lambda: getattr(op, mode)(x))
                    unchanged("vector", x.local_array, before)
                    r = c.r
                    ent = (lambda k, t, i, j: bl.A(k, t, i, j)) if which == "VStack" else (lambda k, t, i, j: bl.A(k, t, j, i).conj())
                    # ent: rows scattered, columns common
                    if part != "SCATTER":
                        block_rows(mode, y, bl, lay, "R" if which == "VStack" else "C",
                                   lambda t, i: D.bind("sum", [n], lambda v: ent(r, t, i, v[0]) * X((v[0],))), dt)
                    else:
                        w = "R" if which == "VStack" else "C"
                        cnt = bl.R if which == "VStack" else bl.C
                        stacked_up(y, dt, lambda idx: D.bind("sum", [c.P, lambda v: bl.L(v[0]), lambda v: cnt(v[0], v[1])],
                                   lambda v: ent(v[0], v[1], v[2], idx[0]).conj() * X((I(norm(lay.S(v[0]) + bl.pre(w, v[0], v[1]) + v[2])),))), n)
                    no_alias("result", y.local_array, x.local_array)


for which in ("VStack", "HStack"):
    @unit(f"{which} sizes", "C12 C21", [f"{VS_}.__init__"] + ([f"{HS_}.__init__"] if which == "HStack" else []), reach=("return", "raise"))
    def _(c, which=which):
        """operators of different numbers of columns (rows) are refused, whoever supplies them"""
        bl = Blocks("float64")
        o = attempt(lambda: getattr(mod(which), "MPI" + which)(bl.ops()))
        f = bl.C if which == "VStack" else bl.R
        k1, t1, k2, t2 = (T.fresh(v) for v in ("k1", "t1", "k2", "t2"))
        c.fact(0 <= k1, k1 < c.P, 0 <= t1, t1 < bl.L(k1), 0 <= k2, k2 < c.P, 0 <= t2, t2 < bl.L(k2))
        if isinstance(o, Raised):
            reach("raise")
            return
        reach("return")
        holds("accepted only if all agree", mkb(f(k1, t1) == f(k2, t2)))


for which in ("VStack", "HStack"):
    @unit(f"{which} partition", "C12 C21", [f"{VS_}._matvec", f"{VS_}._rmatvec"], reach=("raise",))
    def _(c, which=which):
        m = DA()
        n = dim("N")
        bl = Blocks("float64", cols=n) if which == "VStack" else Blocks("float64", rows=n)
        op = getattr(mod(which), "MPI" + which)(bl.ops())
        fwd = which == "VStack"
        lay = bl.layout("R" if fwd else "C")
        x = make("x", any_split("x", n))
        must_raise("scattered vector where a replicated one is needed", lambda: op.matvec(x) if fwd else op.rmatvec(x))
        for part in (m.Partition.BROADCAST, m.Partition.UNSAFE_BROADCAST):
            z = make("z", Replicated("z", 1, [lay.N]), part)
            must_raise("replicated vector where a scattered one is needed", lambda: op.rmatvec(z) if fwd else op.matvec(z))


@unit("block diagonal mask", "C12", [f"{B_}.__init__", f"{B_}._matvec", f"{B_}._rmatvec"])
def _(c):
    m = DA()
    bl = Blocks("float64")
    mask = mask_list()
    op = returns("construction", lambda: mod("BlockDiag").MPIBlockDiag(bl.ops(), mask=mask))
    rows, cols = bl.layout("R"), bl.layout("C")
    for mode, src, dst in (("matvec", cols, rows), ("rmatvec", rows, cols)):
        xl = any_split("x" + mode, src.N)
        x = make("x", xl)
        with use_reshape_contract(content("x", xl)):
            y = returns(mode, lambda: getattr(op, mode)(x))
        layout_is(mode, y, dst, m.Partition.SCATTER, "float64", mask, axis=0)


# ------------------------------------------------------------------ stacks of distributed operators (C14)
from ..absop import Space, Mat, abstract, vector, vector_is, vec_content, matrix, entries
SB_ = "pylops_mpi.basicoperators.BlockDiag.MPIStackedBlockDiag"
SV_ = "pylops_mpi.basicoperators.VStack.MPIStackedVStack"
SL_ = "pylops_mpi.StackedLinearOperator.MPIStackedLinearOperator"


def comp_layouts(n, tag, mixed):
    return [Replicated(f"{tag}{j}", 1) if mixed and j == 1 else Layout.scatter(f"{tag}{j}", 1, 0) for j in range(n)]


for n in (1, 2, 3):
    for dt in ("float64", "complex128"):
        for mode in ("matvec", "rmatvec"):
            for mixed in (False, True):
                if mixed and (n != 2 or dt == "float64"):
                    continue

                @unit(f"stacked block diagonal {mode}[{n} components{', mixed' if mixed else ''},{dt}]", "C14 C05", [f"{SB_}.__init__", f"{SB_}._{mode}", f"{SL_}.{mode}"],
                      assumes=("contract of the component operators (module absop)",))
                def _(c, n=n, dt=dt, mode=mode, mixed=mixed):
                    rows, cols = comp_layouts(n, "r", mixed), comp_layouts(n, "c", mixed)
                    parts = [abstract(f"A{j}", Space(rows[j]), Space(cols[j]), dt) for j in range(n)]
                    op = returns("construction", lambda: mod("BlockDiag").MPIStackedBlockDiag([p[0] for p in parts]))
                    R, C = Space(*rows, stacked=True), Space(*cols, stacked=True)
                    tuple_is("shape", op.shape, (mk(R.total), mk(C.total)))
                    holds("element type", sarr.DT(op.dtype) == sarr.DT(dt))
                    src, dst = (C, R) if mode == "matvec" else (R, C)
                    x, xs = vector("x", src, dt)
                    before = [p.local_array.snapshot() for p in xs]
                    X = vec_content("x", src, dt)
                    y = returns(mode, lambda: getattr(op, mode)(x))

                    def want(d, i):
                        f = parts[d][1].fwd if mode == "matvec" else parts[d][1].adj
                        return f(lambda e, j: X(d, j))(0, i)
                    vector_is(mode, y, dst, want, dt)
                    for j, (p, s) in enumerate(zip(xs, before)):
                        unchanged(f"vector[{j}]", p.local_array, s)

                @unit(f"stacked vertical {mode}[{n} components{', mixed' if mixed else ''},{dt}]", "C14 C05", [f"{SV_}.__init__", f"{SV_}._{mode}", f"{SL_}.{mode}"],
                      assumes=("contract of the component operators (module absop)",))
                def _(c, n=n, dt=dt, mode=mode, mixed=mixed):
                    rows, col = comp_layouts(n, "r", mixed), Layout.scatter("c", 1, 0)
                    parts = [abstract(f"A{j}", Space(rows[j]), Space(col), dt) for j in range(n)]
                    op = returns("construction", lambda: mod("VStack").MPIStackedVStack([p[0] for p in parts]))
                    R, C = Space(*rows, stacked=True), Space(col)
                    tuple_is("shape", op.shape, (mk(R.total), mk(C.total)))
                    holds("element type", sarr.DT(op.dtype) == sarr.DT(dt))
                    src, dst = (C, R) if mode == "matvec" else (R, C)
                    x, xs = vector("x", src, dt)
                    before = [p.local_array.snapshot() for p in xs]
                    X = vec_content("x", src, dt)
                    y = returns(mode, lambda: getattr(op, mode)(x))

                    def want(d, i):
                        if mode == "matvec":
                            return parts[d][1].fwd(X)(0, i)
                        out = D.Poly()
                        for e in range(n):
                            out = out + parts[e][1].adj(lambda z, j, e=e: X(e, j))(0, i)
                        return out
                    vector_is(mode, y, dst, want, dt)
                    for j, (p, s) in enumerate(zip(xs, before)):
                        unchanged(f"vector[{j}]", p.local_array, s)


@unit("stacked vertical sizes", "C14 C21", [f"{SV_}.__init__"], reach=("return", "raise"))
def _(c):
    cols = [Layout.scatter(f"c{j}", 1, 0) for j in range(2)]
    ops = [abstract(f"A{j}", Space(Layout.scatter(f"r{j}", 1, 0)), Space(cols[j]))[0] for j in range(2)]
    o = attempt(lambda: mod("VStack").MPIStackedVStack(ops))
    same = cols[0].dims[0] == cols[1].dims[0]
    reach("raise" if isinstance(o, Raised) else "return")
    holds("refused exactly if the numbers of columns differ", z3.Not(same) if isinstance(o, Raised) else same)
