"""C15: the Fredholm operator multiplies every slice of the replicated model by the slice of the kernel, in rank order.

Process k holds nsl(k) >= 2 slices G(k,t) of nx rows and ny columns (nx, ny >= 2); numbers and entries are symbolic."""
import z3
from ..spec import *
from .. import data as D

F_ = "pylops_mpi.signalprocessing.Fredholm1.MPIFredholm1"
L_ = "pylops_mpi.LinearOperator"


def mod():
    return lib()["pylops_mpi.signalprocessing.Fredholm1"]


class Kernel:
    def __init__(self, dt, nz=None, lo=2):
        c = ctx()
        Z = z3.IntSort()
        f = z3.Function("nsl", Z, Z)
        c.rank_terms_decls.add("nsl")
        c.app_schemas.setdefault("nsl", []).append(lambda k: [f(k) >= lo])
        self.n = lambda k: f(I(k))
        self.base = V.get_base(self.n, c.P)
        self.S = lambda t: I(self.base.at(t))
        self.total = self.S(c.P)
        self.nx, self.ny = dim("nx"), dim("ny")
        c.fact(self.nx >= 2, self.ny >= 2)
        self.nz = z3.IntVal(1) if nz == 1 else dim("nz")
        if nz != 1:
            c.fact(self.nz >= 2)
        real = not sarr.is_complex(dt)
        self.G = lambda k, t, i, j: D.leaf("G", [I(norm(I(v))) for v in (k, t, i, j)], real=real)
        r = c.r
        self.array = sarr.new_array([self.n(r), self.nx, self.ny], lambda idx: self.G(r, *idx), dt)
        self.dt = dt

    def operator(self, **k):
        omit = self.dt == "float64"
        k = opts(omit, saveGt=(k.get("saveGt", False), False), usematmul=(k.get("usematmul", True), True), dtype=(self.dt, "float64"))
        if not (omit and z3.is_int_value(self.nz)):
            k["nz"] = mk(self.nz)
        return mod().MPIFredholm1(self.array, **k)


for nz in (1, "n"):
    for save in (False, True):
        for mm in (False, True):
            for mode in ("matvec", "rmatvec"):
                for dt in ("float64", "complex128"):
                    for part in ("BROADCAST", "UNSAFE_BROADCAST"):
                        if part == "UNSAFE_BROADCAST" and dt == "float64":
                            continue

                        @unit(f"fredholm {mode} nz={nz}{' saved' if save else ''}{' matmul' if mm else ' loop'}[{part},{dt}]", "C15 C05", [f"{F_}.__init__", f"{F_}._{mode}", f"{L_}.MPILinearOperator.{mode}"])
                        def _(c, nz=nz, save=save, mm=mm, mode=mode, dt=dt, part=part):
                            m = DA()
                            K = Kernel(dt, nz)
                            gb = K.array.snapshot()
                            op = returns("construction", lambda: K.operator(saveGt=save, usematmul=mm))
                            a, b = (K.ny, K.nx) if mode == "matvec" else (K.nx, K.ny)
                            N, M = [I(norm(sarr.prod_terms([K.total, v, K.nz]))) for v in (K.ny, K.nx)]
                            tuple_is("shape", op.shape, (mk(M), mk(N)))
                            holds("element type", sarr.DT(op.dtype) == sarr.DT(dt))
                            src, dst = (N, M) if mode == "matvec" else (M, N)
                            xl = Replicated("x", 1, [src])
                            x = make("x", xl, getattr(m.Partition, part), dt)
                            before = x.local_array.snapshot()
                            X = content("x", xl, dt)
                            y = returns(mode, lambda: getattr(op, mode)(x))
                            layout_is("result", y, Replicated("y", 1, [dst]), m.Partition.BROADCAST, dt, axis=0)
                            f = y.local_array.fn()
                            k, t, i, z = (T.fresh(v) for v in "ktiz")
                            with c.assuming(0 <= k, k < c.P, 0 <= t, t < K.n(k), 0 <= i, i < b, 0 <= z, z < K.nz):
                                c.mem.setdefault("locate", []).append(k)
                                sl = I(norm(K.S(k) + t))
                                zz = z if nz != 1 else z3.IntVal(0)
                                got = f((I(norm(sarr.row_major([sl, i, zz], [K.total, b, K.nz]))),))
                                ent = (lambda j: K.G(k, t, i, j)) if mode == "matvec" else (lambda j: K.G(k, t, j, i).conj())
                                want = D.bind("sum", [a], lambda v: ent(v[0]) * X((I(norm(sarr.row_major([sl, v[0], zz], [K.total, a, K.nz]))),)))
                                eq_status("result: slice of any process", got, want)
                            unchanged("vector", x.local_array, before)
                            unchanged("kernel", K.array, gb)
                            no_alias("result", y.local_array, x.local_array)


@unit("fredholm partition", "C15 C21", [f"{F_}._matvec", f"{F_}._rmatvec"], reach=("raise",))
def _(c):
    m = DA()
    K = Kernel("float64")
    op = K.operator()
    for mode, n in (("matvec", K.ny), ("rmatvec", K.nx)):
        lay = Layout.scatter("x" + mode, 1, 0)
        c.fact(I(lay.dims[0]) == I(norm(sarr.prod_terms([K.total, n, K.nz]))))
        x = make("x" + mode, lay)
        must_raise("scattered vector", lambda: getattr(op, mode)(x))


@unit("fredholm slices", "C15 C21", [f"{F_}.__init__"], reach=("return", "raise"))
def _(c):
    """a kernel of which some process holds a single slice is refused by the first process"""
    K = Kernel("float64", lo=1)
    o = attempt(lambda: K.operator())
    k = T.fresh("k")
    c.fact(0 <= k, k < c.P)
    if isinstance(o, Raised):
        reach("raise")
        return
    reach("return")
    holds("accepted by the first process only if all hold several slices", mkb(z3.Implies(c.r == 0, K.n(k) >= 2)))
