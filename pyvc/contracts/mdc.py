"""C16: multi-dimensional convolution is inverse transform, kernel and transform, chained in that order on the kept frequencies.

The Fourier transforms and the restriction to the kept frequencies are serial PyLops operators, used through their contracts:
the transform along the first axis of a real array is y(f,..) = sum_t W(f,t) re x(t,..) with a complex matrix W depending on
the number of samples and on whether the samples are shifted, its adjoint x(t,..) = re sum_f conj(W(f,t)) y(f,..);
the identity from M to N <= M values keeps the first N, its adjoint pads with zeros. The Fredholm operator is used through
the contract proved in units 'fredholm ...'."""
import inspect
import z3
from ..spec import *
from .. import data as D
from ..localop import LocalOp
from .fredholm import Kernel

M_ = "pylops_mpi.waveeqprocessing.MDC"
L_ = "pylops_mpi.LinearOperator"


def matrix(shift, nt):
    return lambda f, t: D.leaf(f"W{int(bool(shift))}", [I(norm(I(v))) for v in (nt, f, t)], real=False)


class Fourier(LocalOp):
    def __init__(self, dims, axis=-1, nfft=None, sampling=1.0, norm="ortho", real=False, ifftshift_before=False, fftshift_after=False,
                 engine="numpy", dtype="complex128", name="F"):
        nd = len(dims)
        axis = loader.normalize_axis_index(axis, nd)
        if axis != 0 or nfft is not None or norm != "ortho" or real is not True or fftshift_after or engine not in ("numpy", "scipy", "fftw") or sarr.is_complex(dtype):
            raise Unsupported("Fourier transform with other arguments than its contract knows")
        self.gd = [I(d) for d in dims]
        self.gf = [I(mk(self.gd[0]) // 2 + 1)] + self.gd[1:]
        self.W = matrix(ifftshift_before, self.gd[0])
        self.rows, self.cols = [I(T.norm(sarr.prod_terms(g))) for g in (self.gf, self.gd)]
        self.shape = (mk(self.rows), mk(self.cols))
        self.dims, self.dimsd = tuple(mk(d) for d in self.gd), tuple(mk(d) for d in self.gf)
        self.dtype = sarr.DT("complex128")

    def matvec(self, x):
        g = self.grid(x, self.gd)
        return sarr.new_array(self.gf, lambda i: D.bind("sum", [self.gd[0]], lambda v: self.W(i[0], v[0]) * D.realpart(g((v[0],) + tuple(i[1:])))), "complex128").ravel()

    def rmatvec(self, x):
        g = self.grid(x, self.gf)
        return sarr.new_array(self.gd, lambda i: D.realpart(D.bind("sum", [self.gf[0]], lambda v: self.W(v[0], i[0]).conj() * g((v[0],) + tuple(i[1:])))), "float64").ravel()

    def grid(self, x, dims):
        return sarr.as_array(x).reshape(tuple(mk(d) for d in dims)).snapshot().fn()

    _matvec, _rmatvec = matvec, rmatvec


class Keep(LocalOp):
    def __init__(self, N, M=None, dtype="float64", inplace=True, name="I"):
        M = N if M is None else M
        if not ctx().valid(I(N) <= I(M)):
            raise Unsupported("identity with more rows than columns")
        self.rows, self.cols = I(T.norm(I(N))), I(T.norm(I(M)))
        self.shape = (mk(self.rows), mk(self.cols))
        self.dtype = sarr.DT(dtype)

    def matvec(self, x):
        if not sarr.dim_eq(x.tshape[0], self.cols):
            loader.raise_model(ValueError)
        return x[:mk(self.rows)]

    def rmatvec(self, x):
        if not sarr.dim_eq(x.tshape[0], self.rows):
            loader.raise_model(ValueError)
        if sarr.dim_eq(self.rows, self.cols):
            return x
        y = sarr.NP.zeros(mk(self.cols), dtype=self.dtype)
        y[:mk(self.rows)] = x
        return y

    _matvec, _rmatvec = matvec, rmatvec


def fredholm(real):
    """contract of MPIFredholm1"""
    L = lib()[L_].MPILinearOperator
    sig = inspect.signature(real.__init__)

    class Fredholm(L):
        def __init__(self, *a, **k):
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            p = b.arguments
            G, self.nz, comm = p["G"], I(p["nz"]), p["base_comm"]
            c = ctx()
            holds("kernel of three dimensions", G.ndim == 3)
            self.at = comm._sync("MPIFredholm1", G)
            self.base = V.get_base(lambda k: I(self.at(I(k)).tshape[0]), c.P)
            _, self.nx, self.ny = G.tshape
            self.dt = sarr.DT(p["dtype"])
            tot = I(self.base.at(c.P))
            self.gm, self.gd = [tot, self.ny, self.nz], [tot, self.nx, self.nz]
            L.__init__(self, shape=tuple(mk(I(norm(sarr.prod_terms(g)))) for g in (self.gd, self.gm)), dtype=self.dt, base_comm=comm)

        def apply(self, x, src, dst, ent):
            m = DA()
            if x.partition not in (m.Partition.BROADCAST, m.Partition.UNSAFE_BROADCAST):
                loader.raise_model(ValueError)
            y = m.DistributedArray(global_shape=mk(I(norm(sarr.prod_terms(dst)))), partition=m.Partition.BROADCAST, dtype=self.dt)
            g = x.local_array.reshape(tuple(mk(d) for d in src)).snapshot().fn()

            def cont(idx):
                k = self.base.own(idx[0])
                t = I(norm(idx[0] - self.base.S(k)))
                return D.bind("sum", [src[1]], lambda v: ent(self.at(k).fn(), t, idx[1], v[0]) * g((idx[0], v[0], idx[2])))
            y._local_array._assign(sarr.new_array(dst, cont, self.dt).ravel())
            return y

        def _matvec(self, x):
            return self.apply(x, self.gm, self.gd, lambda G, t, i, j: G((t, i, j)))

        def _rmatvec(self, x):
            return self.apply(x, self.gd, self.gm, lambda G, t, i, j: G((t, j, i)).conj())
    return Fredholm


def setting(clip, nv):
    """kernel, number of samples, of frequencies asked for and of frequencies kept"""
    c = ctx()
    K = Kernel("complex128", nv)
    nt = dim("nt")
    nfft = I(norm(I(mk(nt) // 2 + 1)))
    nf = dim("nfreq")
    if clip:
        c.fact(nf > nfft, K.total == nfft)
        kept = nfft
    else:
        c.fact(nf <= nfft, K.total == nf)
        kept = nf
    c.mem["serial", "FFT"], c.mem["serial", "Identity"] = Fourier, Keep
    m = lib()[M_]
    return K, nt, nfft, nf, kept, m


ASSUME = ("contract of MPIFredholm1 (units fredholm ...)", "serial PyLops FFT and Identity (module contracts/mdc)")

for two in (False, True):
    for conj in (False, True):
        for pre in (False, True):
            for clip in (False, True):
                for mode in ("matvec", "rmatvec"):
                    for dt, nv in (("float64", "n"), ("float64", 1), ("complex128", "n")):
                        if dt == "complex128" and conj or nv == 1 and (conj or clip):
                            continue
                        nm = "".join([" twosided" if two else "", " conj" if conj else "", " prescaled" if pre else "", " clipped" if clip else ""])

                        @unit(f"convolution {mode}{nm}[nv={nv},{dt}]", "C16 C05", [f"{M_}._MDC", f"{M_}.MPIMDC", f"{L_}.MPILinearOperator._matvec", f"{L_}.MPILinearOperator._rmatvec",
                              f"{L_}._ProductLinearOperator._{mode}", f"{L_}._AdjointLinearOperator._matvec", f"{L_}._AdjointLinearOperator._rmatvec"] + ([f"{L_}._ConjLinearOperator._{mode}"] if conj else []), assumes=ASSUME)
                        def _(c, two=two, conj=conj, pre=pre, clip=clip, mode=mode, dt=dt, nv=nv):
                            da = DA()
                            K, nt, nfft, nf, kept, m = setting(clip, nv)
                            if two:
                                c.fact(T.RMOD(nt, z3.IntVal(2)) == 1)
                            ns, nr = K.nx, K.ny
                            st, sr = D.leaf("dt", real=True), D.leaf("dr", real=True)
                            gb = K.array.snapshot()
                            with patched(m, "MPIFredholm1", fredholm(m.MPIFredholm1)):
                                op = returns("construction", lambda: m.MPIMDC(K.array, mk(nt), mk(K.nz), mk(nf), dt=SNum(st, "float64"), dr=SNum(sr, "float64"),
                                                                              **opts(dt == "float64", twosided=(two, True), conj=(conj, False), prescaled=(pre, False))))
                            N, M = [I(norm(sarr.prod_terms([nt, v, K.nz]))) for v in (nr, ns)]
                            tuple_is("shape", op.shape, (mk(M), mk(N)))
                            holds("element type", sarr.DT(op.dtype) == sarr.DT("float64"), {"what": str(op.dtype)})
                            src, dst, a, b = (N, M, nr, ns) if mode == "matvec" else (M, N, ns, nr)
                            xl = Replicated("x", 1, [src])
                            grid = lambda g: D.leaf("x", [I(norm(I(t))) for t in g], real=dt == "float64")
                            X = Gridded(grid, [nt, a, K.nz])
                            x = make("x", xl, None, dt, fill=False)
                            x._local_array._assign(sarr.new_array([src], lambda i: X(i), dt))
                            before = x.local_array.snapshot()
                            y = returns(mode, lambda: getattr(op, mode)(x))
                            holds("result: replicated", y.partition is da.Partition.BROADCAST)
                            tuple_is("result: shape", y.global_shape, (mk(dst),))
                            tuple_is("result: local shape", y.local_shape, (mk(dst),))
                            scale = D.const(1) if pre else sr * st * D.sqrt(D.from_int(nt))
                            cj = lambda p: p.conj() if conj else p

                            def kern(f, i, j):
                                k = K.base.own(f)
                                t = I(norm(f - K.base.S(k)))
                                return scale * cj(K.G(k, t, i, j) if mode == "matvec" else K.G(k, t, j, i).conj())
                            W, W1 = matrix(two, nt), matrix(False, nt)
                            if mode == "rmatvec":
                                W, W1 = W1, W
                            got = y.local_array.fn()
                            t, i, v = (T.fresh(n) for n in "tiv")
                            vv = z3.IntVal(0) if nv == 1 else v
                            with c.assuming(0 <= t, t < nt, 0 <= i, i < b, 0 <= v, v < K.nz):
                                g = got((I(norm(sarr.row_major([t, i, vv], [nt, b, K.nz]))),))
                                spec = D.realpart(D.bind("sum", [nfft], lambda f: D.Poly() if not c.fork(f[0] < kept) else W1(f[0], t).conj() * D.bind("sum", [a], lambda j: kern(f[0], i, j[0]) *
                                                  D.bind("sum", [nt], lambda u: W(f[0], u[0]) * D.realpart(X.at((u[0], j[0], vv)))))))
                                eq_status("result: transform, kernel, inverse transform", g, spec)
                                eq_status("result: no imaginary part", g, g.conj())
                            unchanged("vector", x.local_array, before)
                            unchanged("kernel", K.array, gb)
                            no_alias("result", y.local_array, x.local_array)


@unit("convolution samples", "C16 C21", [f"{M_}._MDC", f"{M_}.MPIMDC"], reach=("return", "raise"))
def _(c):
    """an even number of samples is refused for two-sided data, and only then"""
    K, nt, nfft, nf, kept, m = setting(False, "n")
    even = T.RMOD(nt, z3.IntVal(2)) == 0
    with patched(m, "MPIFredholm1", fredholm(m.MPIFredholm1)):
        if c.fork(even):
            must_raise("even number of samples, two-sided", lambda: m.MPIMDC(K.array, mk(nt), mk(K.nz), mk(nf), twosided=True))
            must_raise("even number of samples, default", lambda: m.MPIMDC(K.array, mk(nt), mk(K.nz), mk(nf)))
            reach("raise")
        else:
            returns("odd number of samples", lambda: m.MPIMDC(K.array, mk(nt), mk(K.nz), mk(nf), twosided=True))
        returns("one-sided", lambda: m.MPIMDC(K.array, mk(nt), mk(K.nz), mk(nf), twosided=False))
        reach("return")
