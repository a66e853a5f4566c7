"""Symbolic numpy: arrays of symbolic shape whose elements are polynomials (data.py)."""
from __future__ import annotations
import itertools
import numpy as _np
import z3
from . import terms as T, data as D, values as V
from .terms import I, norm, lit, subst, is_int
from .engine import ctx, Unsupported
from .data import Poly
from .values import mk, mkb, SInt, SBool, SNum, SymList, B, imin, imax, seq_index, slice_bounds

DT = _np.dtype


def py_raise(et, msg=""):
    from . import engine
    if engine.CTX is not None and engine.CTX.probe:
        raise Unsupported("exception in a trial run of a loop body")
    e = et(msg)
    e._model = True
    raise e


def promote(a, b):
    return _np.promote_types(DT(a), DT(b)).name


def real_of(dt):
    d = DT(dt)
    if d.kind == "c":
        return "float32" if d.itemsize == 8 else "float64"
    return d.name


def is_complex(dt):
    return DT(dt).kind == "c"


class Placeholder:
    """result of a receive in the pass that only collects the sends"""
    _sym = True


# ------------------------------------------------------------------ substitution in values
def _outer(ts, pairs):
    """terms of the outer vocabulary inside the scope of a substitution: the substituted constants
    that occur in them are renamed apart"""
    ts = [I(t) for t in ts]
    ren, extra = [], []
    for a, _ in pairs:
        if any(T.mentions(t, a) for t in ts):
            a0 = T.fresh("o")
            ren.append((a, a0))
            extra.append((a0, a))
    if ren:
        ts = [subst(t, ren) for t in ts]
    return tuple(ts), pairs + extra


def subst_value(v, pairs):
    """v[pairs] for every kind of value; closures are evaluated under the substitution"""
    pairs = [(a, I(b)) for a, b in pairs]
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs:
        return v
    if isinstance(v, SInt):
        return mk(subst(v.t, pairs))
    if isinstance(v, SBool):
        return mkb(z3.substitute(v.c, *pairs))
    if isinstance(v, SNum):
        return SNum(v.p.subst(pairs), v.dt)
    if isinstance(v, Placeholder):
        return v
    if isinstance(v, V.TList):
        return V.TList([subst_value(x, pairs) for x in v]) if v.sym is None else subst_value(v.sym, pairs)
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst_value(x, pairs) for x in v]
    if isinstance(v, dict):
        return {k: subst_value(x, pairs) for k, x in v.items()}
    if isinstance(v, SymList):
        def lf(t, v=v):
            c = ctx()
            (t2,), pr = _outer([t], pairs)
            with c.scope(pr):
                x = v.fn(t2)
            return subst_value(x, pr)
        return SymList(I(norm(subst(v.length, pairs))), lf)
    if isinstance(v, IntArr):
        return IntArr.of(subst_value(v.tolist_sym(), pairs))
    if isinstance(v, SymArr):
        old = v.fn()

        def content(idx):
            xs, pr = _outer(idx, pairs)
            c = ctx()
            with c.scope(pr):
                p = old(tuple(xs))
            return p.subst(pr)
        flat = None
        if v.flat is not None:
            dims, multi = v.flat

            def mcontent(idx):
                ys, pr = _outer(idx, pairs)
                c = ctx()
                with c.scope(pr):
                    p = multi(tuple(ys))
                return p.subst(pr)
            flat = (tuple(I(norm(subst(n, pairs))) for n in dims), mcontent)
        return new_array(tuple(I(norm(subst(n, pairs))) for n in v.tshape), content, v.dtype, flat)
    if v is None or isinstance(v, (int, float, complex, str, bool, _np.dtype, type)):
        return v
    f = getattr(type(v), "__subst__", None)
    if f is not None:
        return f(v, pairs)
    import enum
    if isinstance(v, enum.Enum):
        return v
    raise Unsupported(f"value of type {type(v).__name__} in a collective")


# ------------------------------------------------------------------ arrays
class Buf:
    __slots__ = ("shape", "dt", "content", "flat", "writable", "version")

    def __init__(self, shape, content, dt, flat=None):
        self.shape = tuple(I(norm(I(n))) for n in shape)
        self.content, self.dt, self.flat = content, DT(dt), flat
        self.writable = True
        self.version = 0

    def get(self):
        return self.content


class AliasBuf(Buf):
    """reshaped view of another array: reads through, writes are out of reach"""
    __slots__ = ("base", "f", "flat_f")

    def __init__(self, shape, base, f, dt, flat_f=None):
        super().__init__(shape, None, dt)
        self.base, self.f, self.flat_f = base, f, flat_f
        self.writable = False

    def get(self):
        c, f = self.base.fn(), self.f
        return lambda idx: c(f(idx))


def dim_eq(a, b):
    """equality of two dimensions: True/False, forking if undetermined"""
    d = norm(I(a) - I(b))
    if isinstance(d, int):
        return d == 0
    return ctx().fork(d == 0)


def known_eq(a, b):
    d = norm(I(a) - I(b))
    if isinstance(d, int):
        return d == 0
    return ctx().valid(d == 0)


def new_array(shape, content, dt, flat=None):
    b = Buf(shape, content, dt, flat)
    return SymArr(b, [("d", j, 0, 1) for j in range(len(b.shape))], b.shape)


def leaf_array(name, shape, dt="float64", real=None, idxf=None):
    """input array; idxf maps the local index to the arguments of the leaf"""
    real = not is_complex(dt) if real is None else real
    return new_array(shape, lambda idx: D.leaf(name, idxf(idx) if idxf else idx, real=real), dt)


def shape_tuple(shape):
    if isinstance(shape, (int, SInt)):
        return (shape,)
    if isinstance(shape, (IntArr, SymList)):
        shape = list(shape)
    out = []
    for n in shape:
        if isinstance(n, SymArr) and not n.tshape:
            raise Unsupported("array as dimension")
        if not isinstance(n, (int, SInt)):
            if isinstance(n, (float, SNum)):
                py_raise(TypeError, "'float' object cannot be interpreted as an integer")
            raise Unsupported(f"shape entry {type(n).__name__}")
        if not is_int(n):
            if ctx().fork(I(n) < 0):
                py_raise(ValueError, "negative dimensions are not allowed")
        elif n < 0:
            py_raise(ValueError, "negative dimensions are not allowed")
        out.append(n)
    return tuple(out)


class SymArr:
    __slots__ = ("buf", "maps", "tshape")
    _sym = True
    __array_priority__ = 1000

    def __init__(self, buf, maps, shape):
        self.buf, self.maps, self.tshape = buf, list(maps), tuple(I(norm(I(n))) for n in shape)

    # -------------------------------------------------------- attributes
    @property
    def shape(self):
        return tuple(mk(n) for n in self.tshape)

    @property
    def ndim(self):
        return len(self.tshape)

    @property
    def size(self):
        r = 1
        for n in self.shape:
            r = r * n
        return r

    @property
    def dtype(self):
        return self.buf.dt

    @property
    def flat(self):
        if self.buf.flat is not None and self._whole():
            return self.buf.flat
        if isinstance(self.buf, AliasBuf) and self.buf.flat_f is not None and self._whole():
            return self.buf.flat_f(self.buf.base)
        return None

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        f = self.fn()
        return self._like(lambda idx: D.realpart(f(idx)), real_of(self.dtype), lambda p: D.realpart(p))

    @property
    def imag(self):
        raise Unsupported("imaginary part")

    def _whole(self):
        return len(self.maps) == len(self.tshape) and all(m[0] == "d" and m[1] == j and is_int(m[2]) and m[2] == 0 and is_int(m[3]) and m[3] == 1 for j, m in enumerate(self.maps)) and \
            all(a.eq(b) for a, b in zip(self.tshape, self.buf.shape))

    # -------------------------------------------------------- reading
    def _bidx(self, idx):
        out = []
        for m in self.maps:
            if m[0] == "f":
                out.append(I(m[1]))
            else:
                _, j, off, st = m
                t = I(idx[j])
                if st != 1:
                    t = t * st
                if not (is_int(off) and off == 0):
                    t = t + I(off)
                out.append(I(norm(t)))
        return tuple(out)

    def fn(self):
        """snapshot of the content: index terms -> polynomial"""
        c = self.buf.get()
        if self._whole():
            return lambda idx: c(tuple(I(t) for t in idx))
        maps = list(self.maps)
        view = SymArr(self.buf, maps, self.tshape)
        return lambda idx: c(view._bidx(idx))

    def _like(self, content, dt, ffn=None):
        flat = None
        if self.flat is not None and ffn is not None:
            dims, multi = self.flat
            flat = (dims, lambda idx: ffn(multi(idx)))
        return new_array(self.tshape, content, dt, flat)

    def snapshot(self):
        return new_array(self.tshape, self.fn(), self.dtype, self.flat)

    copy_ = snapshot

    def copy(self, order="C"):
        return self.snapshot()

    def item(self):
        if self.tshape:
            raise Unsupported("item()")
        return SNum(self.fn()(()), self.dtype.name)

    def __deepcopy__(self, memo):
        return self.snapshot()

    # -------------------------------------------------------- indexing
    def _index(self, index):
        """-> (maps, shape) of the view, or raises"""
        if not isinstance(index, tuple):
            index = (index,)
        index = list(index)
        nax = sum(1 for x in index if x is not None and x is not Ellipsis)
        if nax > self.ndim:
            py_raise(IndexError, "too many indices for array")
        if any(x is Ellipsis for x in index):
            j = [k for k, x in enumerate(index) if x is Ellipsis][0]
            index[j:j + 1] = [slice(None)] * (self.ndim - nax)
            if any(x is Ellipsis for x in index):
                raise Unsupported("two ellipses")
        else:
            index += [slice(None)] * (self.ndim - nax)
        # per view dimension
        newdims, trans = [], {}
        d = 0
        for x in index:
            if x is None:
                newdims.append(z3.IntVal(1))
                continue
            n = self.tshape[d]
            if isinstance(x, slice):
                a, ln, st = slice_bounds(x, n)
                trans[d] = ("d", len(newdims), a, st)
                newdims.append(I(ln))
            elif isinstance(x, (int, SInt)) and not isinstance(x, bool):
                try:
                    t = seq_index(x, n)
                except IndexError:
                    py_raise(IndexError, "index out of bounds")
                trans[d] = ("f", t)
            elif isinstance(x, (float, SNum)):
                py_raise(IndexError, "only integers, slices are valid indices")
            else:
                raise Unsupported(f"index of type {type(x).__name__}")
            d += 1
        maps = []
        for m in self.maps:
            if m[0] == "f":
                maps.append(m)
                continue
            _, j, off, st = m
            t = trans[j]
            if t[0] == "f":
                maps.append(("f", I(norm(I(off) + st * I(t[1])))))
            else:
                _, jj, a, s2 = t
                o = mk(I(off) + st * I(a)) if not (is_int(off) and off == 0 and st == 1) else a
                maps.append(("d", jj, o, st * s2))
        return maps, newdims

    def __getitem__(self, index):
        if isinstance(index, (list, IntArr)):
            return NP.take(self, index, axis=0)
        maps, nd = self._index(index)
        v = SymArr(self.buf, maps, nd)
        if not nd and not (isinstance(index, tuple) and any(x is Ellipsis for x in index)):
            return SNum(v.fn()(()), self.dtype.name)
        return v

    def __setitem__(self, index, value):
        if isinstance(index, (list, IntArr, SymArr)):
            raise Unsupported("fancy assignment")
        maps, nd = self._index(index)
        view = SymArr(self.buf, maps, nd)
        view._assign(value)

    def _assign(self, value):
        c = ctx()
        buf = self.buf
        if not buf.writable:
            raise Unsupported("write through a reshaped view")
        if isinstance(value, (list, tuple)) or isinstance(value, V.TList):
            value = NP.array(value)
        if isinstance(value, Placeholder):
            raise Unsupported("placeholder stored")
        if value is None:
            py_raise(TypeError, "float() argument must be a string or a real number, not 'NoneType'")
        if isinstance(value, IntArr):
            value = value.to_symarr()
        todt = buf.dt
        if isinstance(value, SymArr):
            vs = list(value.tshape)
            while len(vs) > self.ndim:
                if not dim_eq(vs[0], 1):
                    py_raise(ValueError, "could not broadcast input array")
                value = value[0]
                vs = vs[1:]
            off = self.ndim - len(vs)
            bc = []
            for j, n in enumerate(vs):
                m = self.tshape[off + j]
                if known_eq(n, m):
                    bc.append(False)
                elif lit(n) == 1:
                    bc.append(True)
                elif dim_eq(n, m):
                    bc.append(False)
                elif dim_eq(n, 1):
                    bc.append(True)
                else:
                    py_raise(ValueError, "could not broadcast input array")
            vf = value.fn()
            src = lambda idx: vf(tuple(z3.IntVal(0) if b else idx[off + j] for j, b in enumerate(bc)))
            vdt = value.dtype
            vflat = value.flat if not any(bc) and off == 0 else None
        else:
            x = SNum.of(value)
            src = lambda idx: x.p
            vdt = DT(x.dt)
            vflat = None
        cast = (lambda p: D.realpart(p)) if (is_complex(vdt) and not is_complex(todt)) else (lambda p: p)
        if DT(todt).kind in "iu" and DT(vdt).kind not in "iub":
            raise Unsupported("float data stored into an integer array")
        old = buf.content
        buf.version += 1
        if self._whole():
            buf.content = lambda idx: cast(src(idx))
            buf.flat = (vflat[0], (lambda m: lambda idx: cast(m(idx)))(vflat[1])) if vflat is not None else None
            self._loop_write(old, self.maps, self.tshape)
            return
        buf.flat = None
        maps, shape, bshape = list(self.maps), self.tshape, buf.shape

        def content(idx):
            c = ctx()
            vidx = [None] * len(shape)
            for k, m in enumerate(maps):
                t = I(idx[k])
                if m[0] == "f":
                    d = norm(t - I(m[1]))
                    if isinstance(d, int):
                        if d != 0:
                            return old(idx)
                    elif not c.fork(d == 0):
                        return old(idx)
                else:
                    _, j, off, st = m
                    if st == 1:
                        v = I(norm(t - I(off)))
                    elif st == -1:
                        v = I(norm(I(off) - t))
                    else:
                        q, rem = V.int_divmod(mk(t - I(off)), st)
                        if not (rem == 0):
                            return old(idx)
                        v = I(q)
                    lo = mkb(v >= 0) if not isinstance(norm(v), int) else norm(v) >= 0
                    whole = is_int(off) and off == 0 and shape[j].eq(bshape[k])
                    if not whole:
                        if not lo:
                            return old(idx)
                        if not c.fork(v < shape[j]):
                            return old(idx)
                    vidx[j] = v
            for j in range(len(vidx)):
                if vidx[j] is None:
                    vidx[j] = z3.IntVal(0)
            return cast(src(tuple(vidx)))
        buf.content = content
        self._loop_write(old, maps, shape)

    def _loop_write(self, old, maps, shape):
        """a write inside a generic iteration: generalise over the loop variable at loop exit"""
        c = ctx()
        if c.loop_stack:
            c.loop_stack[-1].array_write(self.buf, old, maps, shape)

    # -------------------------------------------------------- shape manipulation
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(a % self.ndim for a in axes)
        inv = {a: k for k, a in enumerate(axes)}
        maps = [m if m[0] == "f" else ("d", inv[m[1]], m[2], m[3]) for m in self.maps]
        return SymArr(self.buf, maps, [self.tshape[a] for a in axes])

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def squeeze(self, axis=None):
        return NP.squeeze(self, axis)

    def flatten(self, order="C"):
        return NP.ravel(self, order).snapshot()

    def ravel(self, order="C"):
        return NP.ravel(self, order)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and not isinstance(shape[0], (int, SInt)):
            shape = tuple(shape[0])
        return reshape(self, shape, order)

    def astype(self, dt, copy=True):
        dt = DT(dt)
        f = self.fn()
        if is_complex(self.dtype) and not is_complex(dt):
            return self._like(lambda idx: D.realpart(f(idx)), dt, D.realpart)
        if dt.kind in "iu" and self.dtype.kind not in "iub":
            raise Unsupported("conversion of floats to integers")
        return self._like(f, dt, lambda p: p)

    def conj(self):
        if not is_complex(self.dtype):
            return self
        f = self.fn()
        return self._like(lambda idx: f(idx).conj(), self.dtype, lambda p: p.conj())
    conjugate = conj

    # -------------------------------------------------------- arithmetic
    def _bin(self, o, f, rev=False, name=""):
        return binary(o, self, f, name) if rev else binary(self, o, f, name)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a * D.inv(b), name="/")
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: a * D.inv(b), True, name="/")
    def __pow__(self, o): return self._bin(o, D.power)
    def __rpow__(self, o): return self._bin(o, D.power, True)

    def __neg__(self):
        f = self.fn()
        return self._like(lambda idx: -f(idx), self.dtype, lambda p: -p)

    def __pos__(self): return self.snapshot()

    def __abs__(self):
        f = self.fn()
        return self._like(lambda idx: D.absv(f(idx)), real_of(self.dtype), D.absv)

    def _inplace(self, o, f, name=""):
        r = binary(self, o, f, name)
        if isinstance(r, SNum):
            raise Unsupported("in-place on a scalar")
        if is_complex(r.dtype) and not is_complex(self.dtype):
            e = TypeError("Cannot cast ufunc output from dtype('complex128') to dtype('float64')")
            e._model = True
            raise e
        if len(r.tshape) != len(self.tshape):
            py_raise(ValueError, "non-broadcastable output operand")
        for a, b in zip(r.tshape, self.tshape):
            if not dim_eq(a, b):
                py_raise(ValueError, "non-broadcastable output operand")
        self._assign(r)
        return self

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: a * D.inv(b), "/")
    def __ipow__(self, o): return self._inplace(o, D.power)

    def __matmul__(self, o): return NP.matmul(self, o)
    def dot(self, o): return NP.dot(self, o)
    def sum(self, axis=None, **k): return NP.sum(self, axis)
    def max(self, axis=None, **k): return NP.max(self, axis)
    def min(self, axis=None, **k): return NP.min(self, axis)

    def __lt__(self, o): raise Unsupported("element-wise comparison")
    __le__ = __gt__ = __ge__ = __lt__

    def __ne__(self, o):
        if not (isinstance(o, (int, float, complex)) and o == 0):
            raise Unsupported("element-wise comparison")
        f = self.fn()
        return self._like(lambda idx: D.nonzero(f(idx)), DT("bool"), D.nonzero)

    def __eq__(self, o):
        if not (isinstance(o, (int, float, complex)) and o == 0):
            raise Unsupported("element-wise comparison")
        f = self.fn()
        g = lambda p: D.const(1) - D.nonzero(p)
        return self._like(lambda idx: g(f(idx)), DT("bool"), g)

    __hash__ = object.__hash__

    def __len__(self):
        n = lit(self.tshape[0]) if self.tshape else None
        if n is None:
            raise Unsupported("len of an array of symbolic size")
        return n

    def __iter__(self):
        n = lit(self.tshape[0])
        if n is None:
            raise Unsupported("iteration over an array of symbolic size")
        return iter([self[k] for k in range(n)])

    def __bool__(self):
        if not self.tshape:
            return bool(self.item())
        raise Unsupported("truth value of an array")

    def __repr__(self):
        return f"SymArr{self.shape}"

    def __format__(self, s):
        return repr(self)


def broadcast_dims(a, b):
    """-> (dim term, a broadcasts?, b broadcasts?)"""
    if lit(a) == 1 and lit(b) == 1:
        return a, False, False
    if known_eq(a, b):
        return a, False, False
    if lit(a) == 1:
        return b, True, False
    if lit(b) == 1:
        return a, False, True
    if dim_eq(a, b):
        return a, False, False
    if dim_eq(a, 1):
        return b, True, False
    if dim_eq(b, 1):
        return a, False, True
    py_raise(ValueError, "operands could not be broadcast together")


_div_int = ("/",)


def result_dt(a, b, name=""):
    """dtype of a binary operation under the promotion rules of numpy 2"""
    def d(x):
        if isinstance(x, SymArr):
            return x.dtype
        if isinstance(x, SNum):
            return DT(x.dt)
        if isinstance(x, IntArr):
            return DT("int64")
        return None
    da, db = d(a), d(b)

    def weak(dt, x):
        if isinstance(x, bool):
            return dt
        if isinstance(x, (int, SInt)):
            return dt if dt.kind != "b" else DT("int64")
        if isinstance(x, float):
            return dt if dt.kind in "fc" else DT("float64")
        if isinstance(x, complex):
            return dt if dt.kind == "c" else DT("complex64" if dt.itemsize == 4 and dt.kind == "f" else "complex128")
        raise Unsupported(f"operand {type(x).__name__}")
    if da is not None and db is not None:
        r = _np.promote_types(da, db)
    elif da is not None:
        r = weak(da, b)
    else:
        r = weak(db, a)
    if name == "/" and r.kind in "iub":
        r = DT("float64")
    return r


def binary(a, b, f, name=""):
    for x in (a, b):
        if isinstance(x, Placeholder):
            return x
    if isinstance(a, IntArr):
        a = a.to_symarr()
    if isinstance(b, IntArr):
        b = b.to_symarr()
    if getattr(a, "dtype", None) == DT("bool") and getattr(b, "dtype", None) in (DT("bool"), None):
        raise Unsupported("arithmetic of truth values")
    if isinstance(a, (list, tuple)):
        a = NP.array(a)
    if isinstance(b, (list, tuple)):
        b = NP.array(b)
    sa, sb = isinstance(a, SymArr), isinstance(b, SymArr)
    if not (sa or isinstance(a, (int, float, complex, SInt, SNum))) or not (sb or isinstance(b, (int, float, complex, SInt, SNum))):
        return NotImplemented
    dt = result_dt(a, b, name)
    if not sa or not sb:
        arr, x = (a, b) if sa else (b, a)
        p = SNum.of(x).p
        fa = arr.fn()
        g = (lambda q: f(q, p)) if sa else (lambda q: f(p, q))
        if not arr.tshape:
            return SNum(g(fa(())), dt.name)
        return arr._like(lambda idx: g(fa(idx)), dt, g)
    fa, fb = a.fn(), b.fn()
    n = max(a.ndim, b.ndim)
    oa, ob = n - a.ndim, n - b.ndim
    shape, ia, ib = [], [], []
    for j in range(n):
        if j < oa:
            shape.append(b.tshape[j - ob])
            ib.append((j, False))
        elif j < ob:
            shape.append(a.tshape[j - oa])
            ia.append((j, False))
        else:
            d, ba, bb = broadcast_dims(a.tshape[j - oa], b.tshape[j - ob])
            shape.append(d)
            ia.append((j, ba))
            ib.append((j, bb))
    if not shape:
        return SNum(f(fa(()), fb(())), dt.name)
    sel = lambda m: (lambda idx: tuple(z3.IntVal(0) if bc else idx[j] for j, bc in m))
    ga, gb = sel(ia), sel(ib)
    flat = None
    if a.flat is not None and b.flat is not None and n == 1 and len(a.flat[0]) == len(b.flat[0]) and \
            all(known_eq(x, y) for x, y in zip(a.flat[0], b.flat[0])):
        ma, mb = a.flat[1], b.flat[1]
        flat = (a.flat[0], lambda idx: f(ma(idx), mb(idx)))
    return new_array(shape, lambda idx: f(fa(ga(idx)), fb(gb(idx))), dt, flat)


def ite_array(cond, a, b):
    if a.ndim != b.ndim:
        raise Unsupported("merge of arrays of different rank")
    fa, fb = a.fn(), b.fn()
    shape = [I(V.ite_int(cond, mk(x), mk(y))) for x, y in zip(a.tshape, b.tshape)]
    dt = a.dtype if a.dtype == b.dtype else _np.promote_types(a.dtype, b.dtype)
    flat = None
    if a.flat is not None and b.flat is not None and len(a.flat[0]) == len(b.flat[0]):
        ma, mb = a.flat[1], b.flat[1]
        flat = ([I(V.ite_int(cond, mk(x), mk(y))) for x, y in zip(a.flat[0], b.flat[0])],
                lambda idx: ma(idx) if ctx().fork(cond) else mb(idx))
    return new_array(shape, lambda idx: fa(idx) if ctx().fork(cond) else fb(idx), dt, flat)


# ------------------------------------------------------------------ reshape
def row_major(idx, dims):
    t = z3.IntVal(0)
    for i, n in zip(idx, dims):
        t = t * I(n) + I(i)
    return I(norm(t))


def split_index(g, n):
    """g = a*n + b with 0 <= b < n, when visible from the polynomial: (a, b)"""
    g, n = I(norm(I(g))), I(norm(I(n)))
    nv = lit(n)
    if nv == 1:
        return g, z3.IntVal(0)
    pn = T.ipoly(n)
    # divide by the leading monomial of n
    lead = max(pn, key=lambda m: (len(m), m))
    lc = pn[lead]
    if not lead:
        return None
    rem = dict(T.ipoly(g))
    q = {}
    for _ in range(40):
        cand = None
        for m in sorted(rem, key=lambda m: (-len(m), m)):
            ml = list(m)
            ok = True
            for x in lead:
                if x in ml:
                    ml.remove(x)
                else:
                    ok = False
                    break
            if ok and rem[m] % lc == 0:
                cand = (m, tuple(ml))
                break
        if cand is None:
            break
        m, qm = cand
        co = rem[m] // lc
        q[qm] = q.get(qm, 0) + co
        rem = T.padd(rem, T.pmul({qm: co}, pn), -1)
    a, b = I(norm(T.from_ipoly({k: v for k, v in q.items() if v}))), I(norm(T.from_ipoly(rem)))
    if ctx().valid(z3.And(0 <= b, b < n)):
        return a, b
    return None


def unflatten(g, dims):
    """multi-index of the flat index g in an array of shape dims (row-major)"""
    out = []
    for n in reversed(dims[1:]):
        s = split_index(g, n)
        if s is None:
            q, r_ = V.int_divmod(mk(g), mk(n)) if lit(n) is None or lit(n) > 0 else (0, 0)
            s = (I(q), I(r_))
        g, b = s
        out.append(b)
    out.append(I(norm(g)))
    return tuple(reversed(out))


def prod_terms(dims):
    t = z3.IntVal(1)
    for n in dims:
        t = t * I(n)
    return I(norm(t))


def reshape(a, shape, order="C"):
    if order not in ("C", None):
        raise Unsupported("reshape order")
    if isinstance(shape, (int, SInt)):
        shape = (shape,)
    shape = list(shape)
    total = prod_terms(a.tshape)
    neg = [j for j, n in enumerate(shape) if is_int(n) and n == -1]
    if neg:
        if len(neg) > 1:
            py_raise(ValueError, "can only specify one unknown dimension")
        rest = prod_terms([I(n) for j, n in enumerate(shape) if j != neg[0]])
        q, rem = V.int_divmod(mk(total), mk(rest))
        if not (rem == 0):
            py_raise(ValueError, "cannot reshape array")
        shape[neg[0]] = q
    shape = [I(n) for n in shape_tuple(tuple(shape))]
    if not dim_eq(prod_terms(shape), total):
        py_raise(ValueError, "cannot reshape array")
    old = a.tshape
    if len(old) == len(shape) and all(known_eq(x, y) for x, y in zip(old, shape)):
        return SymArr(a.buf, a.maps, a.tshape)
    # leading / trailing common dimensions do not take part
    lo = 0
    while lo < min(len(old), len(shape)) and known_eq(old[lo], shape[lo]):
        lo += 1
    hi = 0
    while hi < min(len(old), len(shape)) - lo and known_eq(old[-1 - hi], shape[-1 - hi]):
        hi += 1
    oo, ss = list(old[lo:len(old) - hi]), list(shape[lo:len(shape) - hi])
    # flat source with known multi-index
    fl = a.flat
    if fl is not None and a.ndim == 1 and len(fl[0]) == len(shape) and all(known_eq(x, y) for x, y in zip(fl[0], shape)):
        b = new_array(shape, fl[1], a.dtype)
        b.buf.writable = False
        return b

    def f(idx):
        idx = list(idx)
        mid = idx[lo:len(shape) - hi]
        # a common position of the dimensions of size one
        if not oo:
            m = ()
        else:
            m = unflatten(row_major(mid, ss), oo)
        return tuple(idx[:lo]) + tuple(m) + tuple(idx[len(shape) - hi:])

    flat_f = None
    if len(shape) == 1 and a.ndim > 1:
        def flat_f(base):
            return (base.tshape, base.fn())
    elif len(shape) == 1 and fl is not None:
        flat_f = lambda base: base.flat
    b = AliasBuf(shape, a, f, a.dtype, flat_f)
    return SymArr(b, [("d", j, 0, 1) for j in range(len(shape))], b.shape)


# ------------------------------------------------------------------ integer arrays
class IntArr:
    """1-d integer numpy array"""
    _sym = True
    ndim = 1
    dtype = DT("int64")

    def __init__(self, length, fn, prefix=None, shifted=None, origin=None):
        self.length, self._fn = I(norm(I(length))), fn
        self.origin = origin      # (fn, length, start) of the sequence this is a slice of
        self.prefix = prefix      # self[k] = sum of the first k+1 values of prefix
        self.shifted = shifted    # self = [0] + shifted

    @staticmethod
    def of(x):
        if isinstance(x, IntArr):
            return x
        if isinstance(x, V.TList) and x.sym is not None:
            x = x.sym
        if isinstance(x, (list, tuple)):
            x = V.conc_list([_int_of(v) for v in x])
        if isinstance(x, SymList):
            return IntArr(x.length, x.fn, origin=x.origin)
        if isinstance(x, range) and x.step == 1:
            return IntArr(z3.IntVal(len(x)), lambda k, a=x.start: mk(I(norm(I(k) + a))))
        if isinstance(x, V.SymRange):
            return IntArr(x.length, x.at)
        raise Unsupported(f"integer array of {type(x).__name__}")

    @property
    def shape(self):
        return (mk(self.length),)

    @property
    def size(self):
        return mk(self.length)

    def tolist_sym(self):
        r = SymList(self.length, self._fn)
        r.origin = self.origin
        return r

    def tolist(self):
        return self.tolist_sym()

    def fn(self, t):
        return self._fn(I(t))

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, n, st = slice_bounds(i, self.length)
            if st != 1:
                raise Unsupported("integer array slice step")
            f = self._fn
            return IntArr(I(n), lambda k: f(I(norm(I(k) + I(a)))), prefix=self.prefix if is_int(a) and a == 0 else None,
                          origin=V.slice_origin(self, f, a))
        try:
            return V.seq_pick(i, self.length, self._fn)
        except IndexError:
            py_raise(IndexError, "index out of bounds")

    def __setitem__(self, i, v):
        c = ctx()
        old = self._fn
        self.prefix = self.shifted = self.origin = None
        if isinstance(i, slice):
            if i == slice(None) and isinstance(v, (int, SInt)):
                self._fn = lambda k: v
                return
            raise Unsupported("slice assignment to an integer array")
        t = seq_index(i, self.length)
        if not isinstance(v, (int, SInt)):
            raise Unsupported("non-integer stored into an integer array")
        self._fn = lambda k: V.ite_value(I(k) == t, lambda: v, lambda: old(k))
        if c.loop_stack:
            c.loop_stack[-1].int_write(self, old, t, v)

    def _map2(self, o, f):
        if isinstance(o, (int, SInt)):
            g = self._fn
            return IntArr(self.length, lambda k: f(g(k), o))
        if isinstance(o, (list, tuple, SymList)):
            o = IntArr.of(o)
        if isinstance(o, IntArr):
            if not dim_eq(self.length, o.length):
                py_raise(ValueError, "operands could not be broadcast together")
            g, h = self._fn, o._fn
            return IntArr(self.length, lambda k: f(g(k), h(k)))
        return NotImplemented

    def __add__(self, o): return self._map2(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._map2(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._map2(o, lambda a, b: b - a)
    def __mul__(self, o): return self._map2(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return IntArr(self.length, lambda k, g=self._fn: -g(k))

    def sum(self, axis=None):
        return V.seq_total(self, self._fn)

    def cumsum(self, axis=None):
        return NP.cumsum(self)

    def copy(self):
        return IntArr(self.length, self._fn, self.prefix, self.shifted, self.origin)

    def astype(self, dt):
        if DT(dt).kind in "iu":
            return self.copy()
        return self.to_symarr(dt)

    def to_symarr(self, dt="int64"):
        g = self._fn
        return new_array((self.length,), lambda idx: SNum.of(g(idx[0])).p, dt)

    def __iter__(self):
        n = lit(self.length)
        if n is None:
            raise Unsupported("iteration over an array of symbolic length")
        return iter([self._fn(z3.IntVal(k)) for k in range(n)])

    def __len__(self):
        n = lit(self.length)
        if n is None:
            raise Unsupported("len of an array of symbolic length")
        return n

    def _cmp(self, o, f):
        if isinstance(o, (int, SInt)):
            g = self._fn
            return BoolSeq(self.length, lambda k: B(f(g(k), o)), getattr(self, "nested", None), lambda v: B(f(mk(v), o)))
        if isinstance(o, (list, tuple, SymList)):
            o = IntArr.of(o)
        if isinstance(o, IntArr) and dim_eq(self.length, o.length):
            g, h = self._fn, o._fn
            return BoolSeq(self.length, lambda k: B(f(g(k), h(k))))
        raise Unsupported("element-wise comparison")

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __contains__(self, x):
        return ctx().fork(B(V.seq_contains(self.tolist_sym(), x)))

    def max(self): raise Unsupported("maximum of an integer array")
    min = max

    def __repr__(self): return f"IntArr(len={self.length})"
    def __format__(self, s): return repr(self)


class BoolSeq:
    """result of an element-wise comparison of integers"""
    _sym = True
    ndim = 1

    def __init__(self, length, fn, nested=None, cond=None):
        self.length, self.fn = length, fn
        self.nested, self.cond = nested, cond

    def all(self, axis=None):
        if self.nested is not None:
            return V.forall_nested(self.nested, self.cond)
        return V.forall_seq(self.length, self.fn)

    def any(self, axis=None): return V.vnot((~self).all())
    def __invert__(self): return BoolSeq(self.length, lambda k: z3.Not(self.fn(k)), self.nested, lambda v: z3.Not(self.cond(v)))
    def sum(self, axis=None): return IntArr(self.length, lambda k: mk(z3.If(self.fn(k), 1, 0))).sum()

    def __bool__(self):
        raise Unsupported("truth value of an array")
    __hash__ = object.__hash__


def _int_of(v):
    if isinstance(v, (int, SInt)):
        return v
    if isinstance(v, float) and v == int(v):
        raise Unsupported("float in an integer array")
    raise Unsupported(f"{type(v).__name__} in an integer array")


class SymSet:
    """set of the values of a sequence of integers; only its size matters"""
    _sym = True

    def __init__(self, seq):
        self.seq = seq

    def length(self):
        """number of distinct values: 0 / 1 / more"""
        c = ctx()
        s = self.seq
        n = I(s.length)
        if c.fork(n == 0):
            return 0
        k = T.fresh("k")
        first = s.fn(z3.IntVal(0))
        if not isinstance(first, (int, SInt)):
            raise Unsupported("set of non-integers")
        with c.assuming(k >= 0, k < n):
            e = I(s.fn(k)) == I(first)
            if c.valid(e):
                return 1
        same = z3.Bool(f"allsame!{I(first).sexpr()}!{T.subst(I(s.fn(V.KAPPA)), []).sexpr()}")
        w = T.fresh("w")
        if c.fork(same):
            fn = s.fn
            c.rank_facts.append(lambda t: z3.Implies(z3.And(same, 0 <= t, t < n), I(fn(t)) == I(first)))
            return 1
        c.fact(z3.And(0 <= w, w < n, I(s.fn(w)) != I(first)))
        return 2


# ------------------------------------------------------------------ the numpy module
def as_seq(x):
    if isinstance(x, V.TList) and x.sym is not None:
        return x.sym
    return x


def as_array(x):
    x = as_seq(x)
    if isinstance(x, SymArr):
        return x
    if isinstance(x, IntArr):
        return x.to_symarr()
    if isinstance(x, (SNum, SInt, int, float, complex)):
        v = SNum.of(x)
        return new_array((), lambda idx: v.p, v.dt)
    if isinstance(x, (list, tuple)):
        return NP.array(x)
    raise Unsupported(f"array from {type(x).__name__}")


class _Module:
    def __init__(self, name):
        self.__dict__["__name__"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"numpy.{k}")


NP = _Module("numpy")


def npfn(f):
    NP.__dict__[f.__name__.rstrip("_")] = f
    return f


for _k in ("float64", "float32", "complex128", "complex64", "int64", "int32", "intp", "bool_", "inexact", "floating", "complexfloating", "integer", "number", "generic"):
    NP.__dict__[_k] = getattr(_np, _k)
NP.__dict__.update(dtype=_np.dtype, inf=float("inf"), nan=float("nan"), pi=_np.pi, newaxis=None, ndarray=SymArr, e=_np.e,
                   promote_types=_np.promote_types, issubdtype=_np.issubdtype, finfo=_np.finfo)


def _any_placeholder(xs):
    return any(isinstance(x, Placeholder) for x in xs)


def _dtarg(dtype, default="float64"):
    return DT(default if dtype is None else dtype)


@npfn
def empty(shape, dtype=None, order="C"):
    shape = shape_tuple(shape)
    dt = _dtarg(dtype)
    name = f"undef{next(T._fresh)}"
    if dt.kind in "iu" and len(shape) == 1:
        return IntArr(I(shape[0]), lambda k: mk(z3.Function(name, z3.IntSort(), z3.IntSort())(I(k))))
    return leaf_array("undef:" + name, [I(n) for n in shape], dt)


def _full(shape, v, dtype):
    shape = shape_tuple(shape)
    dt = _dtarg(dtype)
    if dt.kind in "iu" and len(shape) == 1:
        return IntArr(I(shape[0]), lambda k: int(v))
    p = D.const(v)
    return new_array([I(n) for n in shape], lambda idx: p, dt)


@npfn
def zeros(shape, dtype=None, order="C"):
    return _full(shape, 0, dtype)


@npfn
def ones(shape, dtype=None, order="C"):
    return _full(shape, 1, dtype)


@npfn
def full(shape, v, dtype=None):
    if dtype is None and isinstance(v, (int, SInt)):
        dtype = "int64"
    if isinstance(v, (int, float)):
        return _full(shape, v, dtype)
    shape = shape_tuple(shape)
    x = SNum.of(v)
    return new_array([I(n) for n in shape], lambda idx: x.p, _dtarg(dtype, x.dt))


@npfn
def zeros_like(a, dtype=None):
    if isinstance(a, IntArr):
        return _full(a.shape, 0, "int64")
    return _full(a.shape, 0, dtype or a.dtype)


@npfn
def ones_like(a, dtype=None):
    return _full(a.shape, 1, dtype or a.dtype)


@npfn
def empty_like(a, dtype=None):
    return empty(a.shape, dtype or a.dtype)


@npfn
def array(x, dtype=None, copy=True):
    x = as_seq(x)
    if isinstance(x, (SymArr, IntArr)):
        r = x.copy()
        return r.astype(dtype) if dtype is not None and DT(dtype) != r.dtype else r
    if isinstance(x, SymList):
        v = x.fn(V.KAPPA)
        if isinstance(v, (int, SInt)):
            return IntArr(x.length, x.fn)
        if isinstance(v, SNum):
            return new_array((x.length,), lambda idx: SNum.of(x.fn(idx[0])).p, dtype or v.dt)
        if isinstance(v, SymArr):
            return new_array((x.length,) + v.tshape, lambda idx: x.fn(idx[0]).fn()(idx[1:]), dtype or v.dtype)
        raise Unsupported("array of a symbolic list")
    if isinstance(x, (list, tuple)):
        x = [as_seq(v) for v in x]
        if not x:
            return new_array((0,), lambda idx: Poly(), dtype or "float64")
        if all(isinstance(v, (int, SInt)) and not isinstance(v, bool) for v in x):
            if dtype is None or DT(dtype).kind in "iu":
                return IntArr.of(x)
        if all(isinstance(v, (int, SInt, float, complex, SNum)) for v in x):
            ps = [SNum.of(v) for v in x]
            dt = dtype
            if dt is None:
                dt = ps[0].dt
                for p in ps[1:]:
                    dt = promote(dt, p.dt)
            pl = [p.p for p in ps]
            return new_array((len(x),), lambda idx: _pick(pl, idx[0]), dt)
        arrs = [as_array(v) for v in x]
        return stack(arrs, 0) if dtype is None else stack(arrs, 0).astype(dtype)
    if isinstance(x, (int, float, complex, SInt, SNum)):
        v = SNum.of(x)
        return new_array((), lambda idx: v.p, dtype or v.dt)
    raise Unsupported(f"np.array of {type(x).__name__}")


def _pick(pl, t):
    v = lit(I(t))
    if v is not None:
        return pl[v]
    c = ctx()
    for k in range(len(pl) - 1):
        if c.fork(I(t) == k):
            return pl[k]
    return pl[-1]


@npfn
def asarray(x, dtype=None):
    x = as_seq(x)
    if isinstance(x, (SymArr, IntArr)) and (dtype is None or DT(dtype) == x.dtype):
        return x
    return array(x, dtype)


NP.__dict__["ascontiguousarray"] = asarray


@npfn
def arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("arange step")
    if not all(isinstance(x, (int, SInt)) for x in (lo, hi)):
        raise Unsupported("arange of reals")
    n = imax(hi - lo, 0)
    return IntArr(I(n), lambda k: mk(I(lo) + I(k)))


@npfn
def take(a, ind, axis=None, mode="raise"):
    a = as_array(a)
    ind = as_seq(ind)
    if mode != "raise" or axis is None:
        raise Unsupported("take mode")
    axis = axis % a.ndim if is_int(axis) else axis
    if isinstance(ind, (int, SInt)):
        return a[tuple([slice(None)] * axis + [ind])]
    ind = IntArr.of(ind)
    n = a.tshape[axis]
    c = ctx()
    # every index must be in range
    k = T.fresh("k")
    with c.assuming(k >= 0, k < ind.length):
        v = I(ind.fn(k))
        ok = c.valid(z3.And(-n <= v, v < n))
        neg = c.valid(v < 0)
        pos = c.valid(v >= 0)
    d = norm(v - k)
    if not (isinstance(d, int) or not T.mentions(I(d), k)):
        raise Unsupported("take of a non-contiguous range")
    if not ok:
        first, last = I(ind.fn(z3.IntVal(0))), I(ind.fn(I(norm(ind.length - 1))))
        cond = z3.Or(ind.length <= 0, z3.And(-n <= first, last < n))
        if not c.fork(cond):
            py_raise(IndexError, "index out of bounds for axis")
        with c.assuming(k >= 0, k < ind.length):
            neg, pos = c.valid(v < 0), c.valid(v >= 0)
    if not (neg or pos):
        raise Unsupported("take across the sign change")
    f = a.fn()
    base = I(ind.fn(z3.IntVal(0)))
    shape = list(a.tshape)
    shape[axis] = ind.length

    def content(idx):
        idx = list(idx)
        t = I(norm(I(ind.fn(I(idx[axis]))) + (n if neg else 0)))
        idx[axis] = t
        return f(tuple(idx))
    return new_array(shape, content, a.dtype)


def _concat(arrs, axis):
    a0 = arrs[0]
    if any(a.ndim != a0.ndim for a in arrs):
        py_raise(ValueError, "all the input array dimensions must match")
    if a0.ndim == 0:
        py_raise(ValueError, "zero-dimensional arrays cannot be concatenated")
    if not is_int(axis):
        raise Unsupported("symbolic axis")
    if not -a0.ndim <= axis < a0.ndim:
        py_raise(IndexError, "axis out of bounds")
    axis %= a0.ndim
    for a in arrs[1:]:
        for j in range(a0.ndim):
            if j != axis and not dim_eq(a.tshape[j], a0.tshape[j]):
                py_raise(ValueError, "all the input array dimensions except for the concatenation axis must match exactly")
    dt = a0.dtype
    for a in arrs[1:]:
        dt = _np.promote_types(dt, a.dtype)
    offs = [z3.IntVal(0)]
    for a in arrs:
        offs.append(I(norm(offs[-1] + a.tshape[axis])))
    fs = [a.fn() for a in arrs]
    shape = list(a0.tshape)
    shape[axis] = offs[-1]
    lens = [a.tshape[axis] for a in arrs]

    def content(idx):
        c = ctx()
        t = I(idx[axis])
        for k in range(len(fs)):
            if k == len(fs) - 1 or (lit(I(norm(I(lens[k])))) != 0 and c.fork(I(norm(t - offs[k + 1])) < 0)):
                j = list(idx)
                j[axis] = I(norm(t - offs[k]))
                return fs[k](tuple(j))
    return new_array(shape, content, dt)


def concat_sym(sl, axis):
    """concatenation of a list of arrays of symbolic length"""
    c = ctx()
    n = sl.length
    if not c.fork(n > 0):
        py_raise(ValueError, "need at least one array to concatenate")
    kap = V.KAPPA
    with c.assuming(kap >= 0, kap < n):
        a = sl.fn(kap)
        if isinstance(a, IntArr):
            inner = a
        elif not isinstance(a, SymArr):
            if isinstance(a, (list, tuple)):
                a = as_array(a)
            elif isinstance(a, SymList):
                return concat_nested(sl)
            else:
                raise Unsupported("concatenation of a symbolic list")
    if isinstance(a, IntArr):
        return concat_nested(SymList(n, lambda k: sl.fn(k).tolist_sym()))
    if not is_int(axis):
        raise Unsupported("symbolic axis")
    if a.ndim == 0:
        py_raise(ValueError, "zero-dimensional arrays cannot be concatenated")
    if not -a.ndim <= axis < a.ndim:
        py_raise(IndexError, "axis out of bounds")
    axis %= a.ndim
    for j in range(a.ndim):
        if j != axis and T.mentions(a.tshape[j], kap):
            # other dimensions have to agree with those of the first piece
            first = sl.fn(z3.IntVal(0)).tshape[j]
            with c.assuming(kap >= 0, kap < n):
                if not c.valid(a.tshape[j] == first):
                    raise Unsupported("pieces of different shape")
    lens = lambda t: mk(T.subst(a.tshape[axis], [(kap, t)]))
    base = V.get_base(lambda t: I(lens(t)), n)
    total = V.prefix_at(lambda t: I(lens(t)), n, n)
    shape = []
    for j in range(a.ndim):
        if j == axis:
            shape.append(I(total))
        elif T.mentions(a.tshape[j], kap):
            shape.append(sl.fn(z3.IntVal(0)).tshape[j])
        else:
            shape.append(a.tshape[j])

    def content(idx):
        g = I(norm(I(idx[axis])))
        k, i = locate(base, n, lens, g)
        j = list(idx)
        j[axis] = i
        return sl.fn(k).fn()(tuple(j))
    return new_array(shape, content, a.dtype)


def locate(base, n, lens, g):
    """piece and offset of position g in a concatenation"""
    c = ctx()
    if lit(I(norm(I(lens(T.fresh("k")))))) == 1:
        return g, z3.IntVal(0)
    cands = []
    for x in T.apps_of(g).values():
        t = base.is_app(x)
        if t is not None:
            cands.append(t)
    # prefix sums known in closed form: try the ranks at hand
    cands += [c.r]
    for f in c.frames:
        if hasattr(f, "pairs"):
            cands += [b for a_, b in f.pairs] + [a_ for a_, b in f.pairs]
        if hasattr(f, "bound"):
            cands += list(f.bound)
    cands += list(c.mem.get("locate", ()))
    seen = set()
    for k0 in cands:
        for dk in (0, -1, 1):
            k = I(norm(k0 + dk))
            if k.get_id() in seen:
                continue
            seen.add(k.get_id())
            T.keep(k)
            i = I(norm(g - I(base.at(k))))
            if c.valid(z3.And(0 <= k, k < n, 0 <= i, i < I(lens(k)))):
                return k, i
    o = base.own(g)
    return o, I(norm(g - I(base.S(o))))


def concat_nested(sl):
    """concatenation of a list (symbolic) of lists (symbolic) of integers"""
    n = sl.length
    lens = lambda t: mk(sl.fn(I(t)).length if isinstance(sl.fn(I(t)), (SymList, IntArr)) else len(sl.fn(I(t))))
    base = V.get_base(lambda t: I(lens(t)), n)
    total = I(base.at(n))

    def f(g):
        g = I(norm(I(g)))
        k, i = locate(base, n, lens, g)
        s = sl.fn(k)
        return s.fn(i)
    a = IntArr(total, f)
    a.nested = sl
    return a


@npfn
def concatenate(arrs, axis=0):
    arrs = as_seq(arrs)
    if isinstance(arrs, SymList):
        nl = lit(arrs.length)
        if nl is None:
            return concat_sym(arrs, axis)
        arrs = [arrs.fn(z3.IntVal(k)) for k in range(nl)]
    if isinstance(arrs, SymArr):
        arrs = list(arrs)
    arrs = [as_seq(a) for a in arrs]
    if _any_placeholder(arrs):
        return Placeholder()
    if not arrs:
        py_raise(ValueError, "need at least one array to concatenate")
    if all(isinstance(a, IntArr) for a in arrs):
        s = arrs[0].tolist_sym()
        for a in arrs[1:]:
            s = s + a.tolist_sym()
        return IntArr.of(s)
    if all(isinstance(a, list) and all(isinstance(v, (int, SInt)) for v in a) for a in arrs):
        return IntArr.of(sum([list(a) for a in arrs], []))
    for a in arrs:
        if isinstance(a, (SNum, int, float)):
            py_raise(ValueError, "zero-dimensional arrays cannot be concatenated")
    arrs = [as_array(a) for a in arrs]
    if len(arrs) == 1:
        if not -arrs[0].ndim <= axis < arrs[0].ndim:
            py_raise(IndexError, "axis out of bounds")
        return arrs[0].snapshot()
    return _concat(arrs, axis)


@npfn
def hstack(arrs):
    arrs = as_seq(arrs)
    if isinstance(arrs, SymList):
        return concatenate(arrs, 0)
    arrs = [atleast_1d(a) for a in arrs]
    return concatenate(arrs, 0 if arrs and arrs[0].ndim == 1 else 1)


@npfn
def atleast_1d(a):
    a = as_array(a)
    return a if a.ndim else new_array((1,), lambda idx, f=a.fn(): f(()), a.dtype)


@npfn
def vstack(arrs):
    arrs = as_seq(arrs)

    def up(a):
        a = as_array(a)
        if a.ndim == 1:
            f = a.fn()
            return new_array((1,) + a.tshape, lambda idx: f(idx[1:]), a.dtype)
        return a
    if isinstance(arrs, SymList):
        return concat_sym(SymList(arrs.length, lambda k: up(arrs.fn(k))), 0)
    if not list(arrs):
        py_raise(ValueError, "need at least one array to concatenate")
    if _any_placeholder(arrs):
        return Placeholder()
    return concatenate([up(a) for a in arrs], 0)


@npfn
def stack(arrs, axis=0):
    if axis != 0:
        raise Unsupported("stack axis")
    arrs = as_seq(arrs)
    if isinstance(arrs, SymList) and lit(arrs.length) is None:
        if not ctx().fork(arrs.length > 0):
            py_raise(ValueError, "need at least one array to stack")
        k = T.fresh("k")
        with ctx().assuming(k >= 0, k < arrs.length):
            a = as_array(arrs.fn(k))
        if any(T.mentions(t, k) for t in a.tshape):
            raise Unsupported("stack of arrays of different sizes")
        return new_array((arrs.length,) + a.tshape, lambda idx: as_array(arrs.fn(idx[0])).fn()(tuple(idx[1:])), a.dtype)
    arrs = [as_array(a) for a in arrs]
    up = []
    for a in arrs:
        up.append(new_array((1,) + a.tshape, lambda idx, f=a.fn(): f(idx[1:]), a.dtype))
    return concatenate(up, 0)


@npfn
def diff(a, n=1, axis=-1):
    if n != 1:
        raise Unsupported("diff of higher order")
    a = as_seq(a)
    if isinstance(a, (list, tuple, SymList)):
        a = IntArr.of(a)
    if isinstance(a, IntArr):
        return a[1:] - a[:-1]
    if not isinstance(a, SymArr) or not is_int(axis) or a.ndim == 0:
        raise Unsupported("diff")
    if not -a.ndim <= axis < a.ndim:
        py_raise(ValueError, "axis out of bounds")
    pre = (slice(None),) * (axis % a.ndim)
    return a[pre + (slice(1, None),)] - a[pre + (slice(None, -1),)]


@npfn
def pad(a, pad_width, mode="constant", **kw):
    a = as_seq(a)
    if not isinstance(a, SymArr) or mode != "constant" or kw:
        raise Unsupported("pad")
    w = as_seq(pad_width)
    if isinstance(w, (int, SInt)):
        w = [(w, w)] * a.ndim
    w = [as_seq(v) for v in w]
    if len(w) == 2 and a.ndim == 1 and all(isinstance(v, (int, SInt)) for v in w):
        w = [tuple(w)]
    if len(w) != a.ndim or any(len(v) != 2 for v in w):
        raise Unsupported("pad widths")
    for ax, (lo, hi) in enumerate(w):
        if (lo < 0) or (hi < 0):
            py_raise(ValueError, "index can't contain negative values")
        z = lambda k: zeros(tuple(mk(t) if i != ax else k for i, t in enumerate(a.tshape)), dtype=a.dtype)
        if lit(I(lo)) != 0:
            a = _concat([z(lo), a], ax)
        if lit(I(hi)) != 0:
            a = _concat([a, z(hi)], ax)
    return a


@npfn
def append(a, b, axis=None):
    a, b = as_seq(a), as_seq(b)
    if isinstance(a, Placeholder) or isinstance(b, Placeholder):
        return Placeholder()
    ints = lambda x: isinstance(x, (IntArr, int, SInt)) or (isinstance(x, (list, tuple)) and x and all(isinstance(v, (int, SInt)) for v in x)) or \
        (isinstance(x, SymList) and isinstance(x.fn(V.KAPPA), (int, SInt)))
    if axis is None and ints(a) and ints(b):
        a = [a] if isinstance(a, (int, SInt)) else a
        b = [b] if isinstance(b, (int, SInt)) else b
        A, Bq = IntArr.of(a), IntArr.of(b)
        s = A.tolist_sym() + Bq.tolist_sym()
        r = IntArr(s.length, s.fn)
        if lit(A.length) == 1 and lit(I(A.fn(0))) == 0:
            r.shifted = Bq
        return r
    if axis is None:
        return concatenate([NP.ravel(as_array(a)), NP.ravel(as_array(b))], 0)
    return concatenate([as_array(a), as_array(b)], axis)


@npfn
def insert(a, pos, val, axis=None):
    a = as_seq(a)
    if isinstance(a, (list, tuple, SymList)):
        a = IntArr.of(a)
    if not isinstance(a, IntArr) or not is_int(pos) or pos != 0 or not isinstance(val, (int, SInt)):
        raise Unsupported("np.insert")
    if is_int(val) and val == 0 and a.prefix is not None:
        f, n = a.prefix
        return IntArr(I(norm(a.length + 1)), lambda k: V.prefix_at(f, n, I(k)))
    g = a._fn
    r = IntArr(I(norm(a.length + 1)), lambda k: V.ite_value(I(k) == 0, lambda: val, lambda: g(I(norm(I(k) - 1)))))
    if is_int(val) and val == 0:
        r.shifted = a
    return r


@npfn
def cumsum(a, axis=None):
    a = as_seq(a)
    if isinstance(a, (list, tuple, SymList)):
        a = IntArr.of(a)
    if not isinstance(a, IntArr):
        raise Unsupported("cumsum of data")
    if a.shifted is not None:
        s = a.shifted
        f, n = s._fn, s.length
        return IntArr(a.length, lambda k: V.prefix_at(f, n, I(k)))
    f, n = a._fn, a.length
    return IntArr(n, lambda k: V.prefix_at(f, n, I(norm(I(k) + 1))), prefix=(f, n))


@npfn
def prod(x, axis=None, dtype=None):
    x = as_seq(x)
    if isinstance(x, (int, SInt)):
        return x
    if isinstance(x, (tuple, list)):
        if axis not in (None, -1, 0):
            py_raise(IndexError, "axis out of bounds")
        r = 1
        for v in x:
            r = r * v
        return r
    if isinstance(x, IntArr):
        n = lit(x.length)
        if n is not None:
            r = 1
            for v in x:
                r = r * v
            return r
    raise Unsupported("np.prod")


@npfn
def delete(x, i, axis=None):
    x = as_seq(x)
    if isinstance(x, tuple) or (isinstance(x, list)) and is_int(i):
        l = list(x)
        try:
            del l[i]
        except IndexError:
            py_raise(IndexError, "index out of bounds")
        return l
    raise Unsupported("np.delete")


@npfn
def array_equal(a, b):
    a, b = as_seq(a), as_seq(b)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        raise Unsupported("array_equal of data")
    return V.values_equal(list(a) if isinstance(a, tuple) else a, list(b) if isinstance(b, tuple) else b)


@npfn
def ravel(a, order="C"):
    a = as_array(a)
    if order in ("F",) and a.ndim > 1:
        t = a.transpose()
        return reshape(t.snapshot(), (mk(prod_terms(t.tshape)),))
    if order not in ("C", "F", "A", "K", None):
        py_raise(ValueError, "order must be one of 'C', 'F', 'A', or 'K'")
    if order in ("A", "K") and a.ndim > 1 and not _c_order(a):
        raise Unsupported("ravel order of a transposed array")
    if a.ndim == 1:
        return SymArr(a.buf, a.maps, a.tshape)
    if a.ndim == 0:
        return new_array((1,), lambda idx, f=a.fn(): f(()), a.dtype)
    return reshape(a, (mk(prod_terms(a.tshape)),))


def _c_order(a):
    js = [m[1] for m in a.maps if m[0] == "d"]
    return js == sorted(js)


@npfn
def squeeze(a, axis=None):
    a = as_array(a) if not isinstance(a, SNum) else a
    if isinstance(a, SNum):
        return a
    if axis is None:
        drop = [j for j, n in enumerate(a.tshape) if dim_eq(n, 1)]
    else:
        ax = (axis,) if is_int(axis) else tuple(axis)
        drop = []
        for x in ax:
            if not -a.ndim <= x < a.ndim:
                py_raise(IndexError, "axis out of bounds")
            if not dim_eq(a.tshape[x], 1):
                py_raise(ValueError, "cannot select an axis to squeeze out which has size not equal to one")
            drop.append(x % a.ndim)
    if not drop:
        return SymArr(a.buf, a.maps, a.tshape)
    v = a[tuple(0 if j in drop else slice(None) for j in range(a.ndim))] if len(drop) < a.ndim else None
    if v is None:
        f = a.fn()
        return new_array((), lambda idx: f(tuple(z3.IntVal(0) for _ in drop)), a.dtype)
    return v


def _unary(name, f, rdt=lambda d: d):
    def g(x, *a, **k):
        x = as_seq(x)
        if isinstance(x, Placeholder):
            return x
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, IntArr):
            x = x.to_symarr()
        if isinstance(x, SymArr):
            h = x.fn()
            return x._like(lambda idx: f(h(idx)), rdt(x.dtype), f)
        if isinstance(x, (SInt, int)) and name in ("abs", "conj", "real", "conjugate"):
            return abs(x) if name == "abs" else x
        x = SNum.of(x)
        return SNum(f(x.p), DT(rdt(DT(x.dt))).name)
    NP.__dict__[name] = g
    return g


_fl = lambda d: d if DT(d).kind in "fc" else DT("float64")
_unary("abs", D.absv, real_of)
_unary("absolute", D.absv, real_of)
_unary("conj", lambda p: p.conj())
_unary("conjugate", lambda p: p.conj())
_unary("real", D.realpart, real_of)
_unary("sqrt", D.sqrt, _fl)
_unary("negative", lambda p: -p)
_unary("square", lambda p: p * p)


def _opaque1(name):
    _unary(name, lambda p: D.fn(name, [p], real=p.is_real()), _fl)


for _n in ("exp", "log", "sin", "cos", "log10", "tanh"):
    _opaque1(_n)


def _bin(name, f, tag=""):
    def g(a, b, **k):
        a, b = as_seq(a), as_seq(b)
        if isinstance(a, (list, tuple)):
            a = array(a)
        if isinstance(b, (list, tuple)):
            b = array(b)
        if isinstance(a, (SymArr, IntArr)) or isinstance(b, (SymArr, IntArr)):
            r = binary(a, b, f, tag)
        else:
            x, y = SNum.of(a), SNum.of(b)
            r = SNum(f(x.p, y.p), promote(x.dt, y.dt))
        if name == "float_power":
            if isinstance(r, SNum):
                return SNum(r.p, "complex128" if is_complex(r.dt) else "float64")
            r.buf.dt = DT("complex128" if is_complex(r.dtype) else "float64")
        return r
    NP.__dict__[name] = g


_bin("power", D.power)
_bin("float_power", D.power)
_bin("add", lambda a, b: a + b)
_bin("subtract", lambda a, b: a - b)
_bin("multiply", lambda a, b: a * b)
_bin("divide", lambda a, b: a * D.inv(b), "/")
_bin("true_divide", lambda a, b: a * D.inv(b), "/")


def _reduce(head, x, axis, elem=None, dt=None, keepdims=False):
    x = as_array(x)
    e = elem or (lambda p: p)
    dt = dt or (DT("int64") if x.dtype == DT("bool") and head == "sum" else x.dtype)
    c = ctx()
    if keepdims:
        raise Unsupported("keepdims")
    if axis is None or (x.ndim == 1 and axis in (0, -1)):
        dims, f = x.tshape, x.fn()
        fl = x.flat
        if fl is not None:
            dims, f = fl
        if head != "sum":
            if c.fork(z3.Or(*[n == 0 for n in dims])) if dims else False:
                py_raise(ValueError, "zero-size array to reduction operation which has no identity")
        if not dims:
            return SNum(e(f(())), DT(dt).name)
        return SNum(D.bind(head, list(dims), lambda vs: e(f(tuple(vs)))), DT(dt).name)
    if not is_int(axis):
        raise Unsupported("reduction axis")
    if not -x.ndim <= axis < x.ndim:
        py_raise(IndexError, "axis out of bounds")
    axis %= x.ndim
    n = x.tshape[axis]
    if head != "sum" and c.fork(n == 0):
        py_raise(ValueError, "zero-size array to reduction operation which has no identity")
    f = x.fn()
    shape = [m for j, m in enumerate(x.tshape) if j != axis]
    return new_array(shape, lambda idx: D.bind(head, [n], lambda vs: e(f(tuple(idx[:axis]) + (vs[0],) + tuple(idx[axis:])))), dt)


@npfn
def sum_(x, axis=None, dtype=None, keepdims=False):
    x = as_seq(x)
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
        l = list(x)
        if all(isinstance(v, (int, SInt)) for v in l):
            r = 0
            for v in l:
                r = r + v
            return r
        x = array(l)
    if isinstance(x, IntArr):
        return x.sum()
    if isinstance(x, SymList):
        v = x.fn(V.KAPPA)
        if isinstance(v, (int, SInt)):
            return IntArr.of(x).sum()
        x = array(x)
    if isinstance(x, (SNum, SInt)):
        return x
    return _reduce("sum", x, axis, keepdims=keepdims)


def _mm(head):
    def g(x, axis=None, keepdims=False):
        x = as_seq(x)
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, IntArr):
            raise Unsupported(f"{head} of an integer array")
        if is_complex(x.dtype):
            raise Unsupported(f"{head} of complex data")
        return _reduce(head, x, axis, keepdims=keepdims)
    return g


NP.__dict__["max"] = NP.__dict__["amax"] = _mm("max")
NP.__dict__["min"] = NP.__dict__["amin"] = _mm("min")


class NZ:
    pass


@npfn
def all_(x, axis=None):
    x = as_seq(x)
    if isinstance(x, BoolSeq):
        return x.all()
    if isinstance(x, (bool, SBool)):
        return x
    raise Unsupported("numpy.all")


@npfn
def any_(x, axis=None):
    x = as_seq(x)
    if isinstance(x, BoolSeq):
        return x.any()
    if isinstance(x, (bool, SBool)):
        return x
    raise Unsupported("numpy.any")


@npfn
def count_nonzero(x, axis=None):
    x = as_array(x)
    return _reduce("sum", x, axis, D.nonzero, "int64")


@npfn
def dot(a, b):
    a, b = as_seq(a), as_seq(b)
    if isinstance(a, (int, float, complex, SInt, SNum)) or isinstance(b, (int, float, complex, SInt, SNum)):
        return a * b
    a, b = as_array(a), as_array(b)
    dt = _np.promote_types(a.dtype, b.dtype)
    if a.ndim == 1 and b.ndim == 1:
        if not dim_eq(a.tshape[0], b.tshape[0]):
            py_raise(ValueError, "shapes not aligned")
        fa, fb = a.flat, b.flat
        if fa is not None and fb is not None and len(fa[0]) == len(fb[0]) and all(known_eq(x, y) for x, y in zip(fa[0], fb[0])):
            return SNum(D.bind("sum", list(fa[0]), lambda vs: fa[1](tuple(vs)) * fb[1](tuple(vs))), dt.name)
        f, g = a.fn(), b.fn()
        return SNum(D.bind("sum", [a.tshape[0]], lambda vs: f(tuple(vs)) * g(tuple(vs))), dt.name)
    return _matmul(a, b, dt)


def _matmul(a, b, dt):
    f, g = a.fn(), b.fn()
    if a.ndim == 2 and b.ndim == 1:
        if not dim_eq(a.tshape[1], b.tshape[0]):
            py_raise(ValueError, "shapes not aligned")
        return new_array(a.tshape[:1], lambda i: D.bind("sum", [a.tshape[1]], lambda v: f((i[0], v[0])) * g((v[0],))), dt)
    if a.ndim == 1 and b.ndim == 2:
        if not dim_eq(a.tshape[0], b.tshape[0]):
            py_raise(ValueError, "shapes not aligned")
        return new_array(b.tshape[1:], lambda i: D.bind("sum", [a.tshape[0]], lambda v: f((v[0],)) * g((v[0], i[0]))), dt)
    if a.ndim == 2 and b.ndim == 2:
        if not dim_eq(a.tshape[1], b.tshape[0]):
            py_raise(ValueError, "shapes not aligned")
        return new_array((a.tshape[0], b.tshape[1]),
                         lambda i: D.bind("sum", [a.tshape[1]], lambda v: f((i[0], v[0])) * g((v[0], i[1]))), dt)
    raise Unsupported("matrix product of these shapes")


@npfn
def matmul(a, b):
    a, b = as_array(a), as_array(b)
    dt = _np.promote_types(a.dtype, b.dtype)
    if a.ndim <= 2 and b.ndim <= 2:
        if a.ndim == 0 or b.ndim == 0:
            py_raise(ValueError, "matmul: input operand does not have enough dimensions")
        if a.ndim == 1 and b.ndim == 1:
            return dot(a, b)
        return _matmul(a, b, dt)
    f, g = a.fn(), b.fn()
    if a.ndim == 3 and b.ndim == 3:
        if not dim_eq(a.tshape[2], b.tshape[1]):
            py_raise(ValueError, "matmul: mismatch in its core dimension")
        n, ba, bb = broadcast_dims(a.tshape[0], b.tshape[0])
        z = z3.IntVal(0)
        return new_array((n, a.tshape[1], b.tshape[2]),
                         lambda i: D.bind("sum", [a.tshape[2]], lambda v: f((z if ba else i[0], i[1], v[0])) * g((z if bb else i[0], v[0], i[2]))), dt)
    if a.ndim == 3 and b.ndim == 2:
        if not dim_eq(a.tshape[2], b.tshape[0]):
            py_raise(ValueError, "matmul: mismatch in its core dimension")
        return new_array((a.tshape[0], a.tshape[1], b.tshape[1]),
                         lambda i: D.bind("sum", [a.tshape[2]], lambda v: f((i[0], i[1], v[0])) * g((v[0], i[2]))), dt)
    raise Unsupported("matmul of these shapes")


@npfn
def vdot(a, b):
    a, b = NP.ravel(a), NP.ravel(b)
    return dot(a.conj(), b)


@npfn
def iscomplexobj(x):
    if isinstance(x, complex):
        return True
    if isinstance(x, (int, float, SInt)):
        return False
    d = getattr(x, "dtype", None)
    return d is not None and DT(d).kind == "c"


@npfn
def isrealobj(x):
    return not iscomplexobj(x)


@npfn
def isscalar(x):
    return isinstance(x, (int, float, complex, str, SInt, SNum))


@npfn
def ndim(x):
    return 0 if isscalar(x) else as_array(x).ndim


@npfn
def shape_(x):
    return as_array(x).shape


@npfn
def unique(x):
    v = list(x) if isinstance(x, (list, tuple)) else None
    if v is not None and all(T.is_int(e) for e in v):
        return sorted(set(v))
    raise Unsupported("np.unique")


@npfn
def expand_dims(a, axis):
    ix = [slice(None)] * a.ndim
    ix.insert(axis if axis >= 0 else a.ndim + 1 + axis, None)
    return a[tuple(ix)]


@npfn
def transpose(a, axes=None):
    return a.transpose(axes) if axes is not None else a.transpose()


@npfn
def swapaxes(a, i, j):
    return a.swapaxes(i, j)


@npfn
def reshape_(a, shape, order="C"):
    return reshape(a, shape, order)


@npfn
def copy(a):
    return as_array(a).copy()


@npfn
def split(a, *k):
    raise Unsupported("np.split")


@npfn
def isclose(a, b, rtol=1e-5, atol=1e-8):
    """|a - b| <= atol + rtol |b| as an uninterpreted predicate of the four numbers"""
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        a, b = as_array(a), as_array(b)
        if a.ndim or b.ndim:
            raise Unsupported("isclose of arrays")
        a, b = a.item(), b.item()
    a, b, rtol, atol = [SNum.of(v) for v in (a, b, rtol, atol)]
    log = ctx().mem.setdefault("isclose", {})
    key = (a.p.key(), b.p.key(), rtol.p.key(), atol.p.key())
    if key not in log:
        log[key] = (z3.Bool(f"isclose!{len(log)}"), a.p, b.p, rtol.p, atol.p)
    return mkb(log[key][0])


@npfn
def ceil(x):
    if isinstance(x, (SInt, int)):
        return SNum.of(x)
    if isinstance(x, SNum) and not isinstance(x, SymArr):
        from .loader import ratio_of_poly
        q = ratio_of_poly(x.p)
        if q is not None:
            return SNum(D.from_int(I(norm(-I(mk(I(norm(-q[0]))) // q[1])))), x.dt)
    raise Unsupported("np.ceil")


@npfn
def floor(x):
    if isinstance(x, (SInt, int)):
        return SNum.of(x)
    if isinstance(x, SNum):
        from .loader import ratio_of_poly
        q = ratio_of_poly(x.p)
        if q is not None:
            return SNum(D.from_int(I(norm(I(mk(q[0]) // q[1])))), x.dt)
    raise Unsupported("np.floor")


@npfn
def result_type(*a):
    ds = []
    for x in a:
        if isinstance(x, (SymArr, IntArr)):
            ds.append(x.dtype)
        elif isinstance(x, SNum):
            ds.append(DT(x.dt))
        elif isinstance(x, SInt):
            ds.append(1)
        else:
            ds.append(x)
    return _np.result_type(*ds)


NP.__dict__["linalg"] = _Module("numpy.linalg")
NP.__dict__["random"] = _Module("numpy.random")
NP.__dict__["fft"] = _Module("numpy.fft")
