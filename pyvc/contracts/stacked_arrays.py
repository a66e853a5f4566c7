"""C14 (arrays), C05, C21, C22: arrays made of several distributed arrays.

The number of components is instantiated to 1, 2 and 3 (with different layouts); everything else is arbitrary."""
import z3
from ..spec import *
from .. import data as D
from .reduce import reduce_spec, norm_spec, ORDS, scalar_of

P_ = "pylops_mpi.DistributedArray"
S_ = P_ + ".StackedDistributedArray"


def fns(s):
    return [f"{S_}.{x}" for x in ("__init__ __getitem__ " + s).split()]


def kinds(n, tag=""):
    m = DA()
    S, Bc, U = m.Partition.SCATTER, m.Partition.BROADCAST, m.Partition.UNSAFE_BROADCAST
    out = [(Layout.scatter("a" + tag, 1, 0), S), (Replicated("b" + tag, 2), Bc), (Layout.scatter("c" + tag, 2, 1), S)]
    if n == 2:
        out = [(Layout.scatter("d" + tag, 2, 0), S), (Layout.scatter("a" + tag, 1, 0), S)]
    return out[:n]


def stack(name, ks, dt="float64"):
    m = DA()
    comm = ctx().mem.get("comm")
    kw = {} if comm is None else {"base_comm": comm}
    parts = [make(f"{name}{j}", lay, part, dt) for j, (lay, part) in enumerate(ks)]
    return m.StackedDistributedArray(parts, **kw), parts


def stack_is(nm, s, ks, want, dt):
    m = DA()
    holds(f"{nm}: stacked array", isinstance(s, m.StackedDistributedArray))
    if not isinstance(s, m.StackedDistributedArray):
        raise PathEnd()
    holds(f"{nm}: number of components", s.narrays == len(ks) and len(s.distarrays) == len(ks))
    holds(f"{nm}: communicator", s.base_comm is the_comm(), {"what": repr(s.base_comm)})
    for j, (lay, part) in enumerate(ks):
        layout_is(f"{nm}[{j}]", s[j], lay, part, dt, None, axis=lay.axis)
        array_is(f"{nm}[{j}]", s[j].local_array, lay.local(), lambda idx: want(j, lay.gidx(idx)), dt)


def frame(nm, arrays, snaps):
    for j, (a, b) in enumerate(zip(arrays, snaps)):
        unchanged(f"{nm}[{j}]", a.local_array, b)


OPS = {
    "neg": ("__neg__ copy", 1, lambda a: -a, lambda x: -x),
    "conj": ("conj", 1, lambda a: a.conj(), lambda x: x.conj()),
    "copy": ("copy", 1, lambda a: a.copy(), lambda x: x),
    "add": ("add __add__ _check_stacked_size copy", 2, lambda a, b: a + b, lambda x, y: x + y),
    "sub": ("__sub__ add __neg__ _check_stacked_size copy", 2, lambda a, b: a - b, lambda x, y: x - y),
    "mul": ("multiply __mul__ _check_stacked_size copy", 2, lambda a, b: a * b, lambda x, y: x * y),
    "scale": ("multiply __mul__ copy", 0, lambda a, s: a * s, lambda x, s: x * s),
    "rscale": ("multiply __rmul__ copy", 0, lambda a, s: s * a, lambda x, s: x * s),
    "iadd": ("iadd __iadd__ _check_stacked_size", -2, lambda a, b: a.__iadd__(b), lambda x, y: x + y),
    "isub": ("__isub__ iadd __neg__ _check_stacked_size", -2, lambda a, b: a.__isub__(b), lambda x, y: x - y),
}


def run_op(c, op, n, dt):
    names, ar, f, h = OPS[op]
    ks = kinds(n)
    A, pa = stack("x", ks, dt)
    sa = [p.local_array.snapshot() for p in pa]
    X = [content(f"x{j}", lay, dt) for j, (lay, _) in enumerate(ks)]
    Y = [content(f"y{j}", lay, dt) for j, (lay, _) in enumerate(ks)]
    if ar == 1:
        r = returns(op, lambda: f(A))
        stack_is(op, r, ks, lambda j, g: h(X[j](g)), dt)
    elif ar == 0:
        s = D.leaf("s", real=(dt == "float64"))
        r = returns(op, lambda: f(A, SNum(s, dt)))
        stack_is(op, r, ks, lambda j, g: h(X[j](g), s), dt)
    else:
        Bb, pb = stack("y", ks, dt)
        sb = [p.local_array.snapshot() for p in pb]
        r = returns(op, lambda: f(A, Bb))
        stack_is(op, r, ks, lambda j, g: h(X[j](g), Y[j](g)), dt)
        frame(f"{op}: right operand", pb, sb)
        for j in range(n):
            no_alias(f"{op}[{j}]", r[j].local_array, pb[j].local_array)
    if ar > 0 or ar == 0:
        frame(f"{op}: operand", pa, sa)
        holds(f"{op}: new object", r is not A)
        for j in range(n):
            no_alias(f"{op}[{j}]", r[j].local_array, pa[j].local_array)
    else:
        holds(f"{op}: the left operand itself", r is A)
        for j in range(n):
            holds(f"{op}: component {j} is the one of the left operand", r[j] is pa[j])


def reductions(c, n, dt, o):
    ks = [(Layout.scatter(t, nd, ax, 1 if "inf" in (o or "") else 0), DA().Partition.SCATTER) for t, nd, ax in (("a", 1, 0), ("d", 2, 0), ("e", 1, 0))][:n]
    A, pa = stack("x", ks, dt)
    Bb, pb = stack("y", ks, dt)
    sa = [p.local_array.snapshot() for p in pa]
    sb = [p.local_array.snapshot() for p in pb]
    X = [content(f"x{j}", lay, dt) for j, (lay, _) in enumerate(ks)]
    Y = [content(f"y{j}", lay, dt) for j, (lay, _) in enumerate(ks)]
    if o is None:
        r = returns("dot", lambda: A.dot(Bb))
        want = D.Poly()
        for j, (lay, _) in enumerate(ks):
            want = want + reduce_spec("sum", lay, None, lambda g: X[j](g) * Y[j](g))
        num_is("dot is the sum over the components", scalar_of(r), want)
        frame("dot: right operand", pb, sb)
    else:
        p = dim("p", 1)
        arg = () if o == "None" else (mk(p) if o == "p" else ORDS[o],)
        r = returns("norm", lambda: A.norm(*arg))
        one = lambda f: (lambda j: (lambda g: f(X[j](g))))
        q = D.from_int(p) if o == "p" else (D.const(ORDS[o]) if "inf" not in o else None)
        parts = []
        for j, (lay, _) in enumerate(ks):
            if o == "0":
                parts.append(reduce_spec("sum", lay, None, lambda g: D.nonzero(X[j](g))))
            elif "inf" in o:
                parts.append(reduce_spec("max" if o == "inf" else "min", lay, None, lambda g: D.absv(X[j](g))))
            else:
                parts.append(reduce_spec("sum", lay, None, lambda g: D.absv(D.power(X[j](g), q))))
        if "inf" in o:
            want = parts[0] if n == 1 else D.combine("max" if o == "inf" else "min", parts)
        else:
            want = D.Poly()
            for t in parts:
                want = want + t
            if o != "0":
                want = D.power(want, D.inv(q))
        num_is("norm of the concatenation", scalar_of(r), want)
    frame("operand", pa, sa)


for n in (1, 2, 3):
    for op in OPS:
        for dt in ("float64", "complex128"):
            if dt != "float64" and op not in ("conj", "mul", "rscale"):
                continue

            @unit(f"stacked {op}[{n},{dt}]", "C14 C05", fns(OPS[op][0]))
            def _(c, op=op, n=n, dt=dt):
                run_op(c, op, n, dt)

            if n == 2 and dt == "float64":
                @unit(f"sub stacked {op}[{n},{dt}]", "C22", fns(OPS[op][0]))
                def _(c, op=op, n=n, dt=dt):
                    on_subcommunicator(c)
                    run_op(c, op, n, dt)

    for o in (None,) + tuple(ORDS):
        for dt in ("float64", "complex128"):
            @unit(f"stacked {'dot' if o is None else 'norm ' + o}[{n},{dt}]", "C14 C05", fns("dot _check_stacked_size" if o is None else "norm"))
            def _(c, n=n, dt=dt, o=o):
                reductions(c, n, dt, o)
            if n == 2 and dt == "float64" and o in (None, "2", "inf"):
                @unit(f"sub stacked {'dot' if o is None else 'norm ' + o}[{n},{dt}]", "C22", fns("dot _check_stacked_size" if o is None else "norm"))
                def _(c, n=n, dt=dt, o=o):
                    on_subcommunicator(c)
                    reductions(c, n, dt, o)

    @unit(f"stacked asarray[{n}]", "C14 C02", fns("asarray"))
    def _(c, n=n):
        gather(c, n)

    if n == 2:
        @unit(f"sub stacked asarray[{n}]", "C22", fns("asarray"))
        def _(c, n=n):
            on_subcommunicator(c)
            gather(c, n)

    @unit(f"stacked setitem[{n}]", "C14 C04", fns("__setitem__"))
    def _(c, n=n):
        ks = kinds(n)
        A, pa = stack("x", ks)
        sa = [p.local_array.snapshot() for p in pa]
        for j, (lay, part) in enumerate(ks):
            v = sarr.leaf_array(f"v{j}", [I(t) for t in lay.local()], "float64", idxf=lambda idx: (c.r,) + tuple(idx))
            src = z3.IntVal(0) if part is DA().Partition.BROADCAST else c.r
            returns("assignment", lambda: A.__setitem__(j, v))
            array_is(f"component {j}", A[j].local_array, lay.local(), lambda idx: D.leaf(f"v{j}", [src] + list(idx)))
            holds("same component", A[j] is pa[j])
            for i in range(j + 1, n):
                unchanged(f"component {i}", pa[i].local_array, sa[i])


def gather(c, n):
    ks = [(Layout.scatter(t, 1, 0), DA().Partition.SCATTER) for t in ("a", "b", "c")][:n]
    if n >= 2:
        ks[1] = (Replicated("bb", 1), DA().Partition.BROADCAST)
    A, pa = stack("x", ks)
    y = returns("asarray", lambda: A.asarray())
    tot = z3.IntVal(0)
    offs = []
    for lay, _ in ks:
        offs.append(tot)
        tot = I(norm(tot + I(lay.dims[0])))

    def want(idx):
        g = I(idx[0])
        for j in range(n - 1):
            if c.fork(g < offs[j + 1]):
                return D.leaf(f"x{j}", [I(norm(g - offs[j]))])
        return D.leaf(f"x{n - 1}", [I(norm(g - offs[n - 1]))])
    array_is("concatenation of the components", y, [mk(tot)], want)


# ------------------------------------------------------------------ sizes (C21)
for op in ("add", "sub", "mul", "iadd", "isub", "dot"):
    f = OPS[op][2] if op != "dot" else (lambda a, b: a.dot(b))

    @unit(f"reject stacked {op}", "C21 C14", fns("_check_stacked_size " + (OPS[op][0] if op != "dot" else "dot")), reach=("raise",))
    def _(c, op=op, f=f):
        m = DA()
        S = m.Partition.SCATTER
        A, pa = stack("x", kinds(2))
        for other in (kinds(1), kinds(3)):
            Bb, pb = stack("y", other)
            sa = [p.local_array.snapshot() for p in pa]
            must_raise(f"{op} with another number of components", lambda: f(A, Bb))
            frame(f"{op} rejected: left operand", pa, sa)

    for axes in ((0, 0), (0, 1)):
        @unit(f"reject stacked {op} last component[{axes[0]}{axes[1]}]", "C21 C14", fns("_check_stacked_size " + (OPS[op][0] if op != "dot" else "dot")), reach=("return", "raise"))
        def _(c, op=op, f=f, axes=axes):
            """the last component differs: nothing of the first may have been changed either"""
            m = DA()
            Bc = m.Partition.BROADCAST if op != "dot" else m.Partition.SCATTER
            S = m.Partition.SCATTER
            la = Layout.scatter("p", 1, 0)
            lb, lc = (Replicated("q", 2), Replicated("s", 2)) if op != "dot" else (Layout.scatter("q", 2, axes[0]), Layout.scatter("s", 2, axes[1]))
            same = z3.And(*[I(x) == I(y) for x, y in zip(lb.dims, lc.dims)])
            A2, pa2 = stack("u", [(la, S), (lb, Bc)])
            B2, pb2 = stack("v", [(la, S), (lc, Bc)])
            if op == "dot":
                c.assume(z3.Not(same))
                reach("return")
            sa = [p.local_array.snapshot() for p in pa2]
            sb = [p.local_array.snapshot() for p in pb2]
            r = attempt(lambda: f(A2, B2))
            if isinstance(r, Raised):
                reach("raise")
                holds(f"{op} rejected only for different global shapes", z3.Not(same))
                frame(f"{op} rejected: left operand", pa2, sa)
            else:
                reach("return")
                holds(f"{op} accepted only for equal global shapes", same)
            frame(f"{op}: right operand", pb2, sb)
